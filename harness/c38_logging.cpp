// C38: every enabled log record reaches every writer exactly once, in order.
#include "web.hpp"
#include <atomic>
#include <cstdlib>
#include <filesystem>
#include <fitoria/log.hpp>
#include <fitoria/log/async_stdout_writer.hpp>
#include <fitoria/log/async_stream_file_writer.hpp>
#include <fitoria/log/sync_stdout_writer.hpp>
#include <fitoria/log/sync_stream_file_writer.hpp>
#include <fmt/format.h>
#include <fstream>
#include <sstream>
#include <thread>

static pbt::Rule rule(
    "one or two loggers with generated filters, buffer sizes and writers (recording ones that suspend, files and standard "
    "output, synchronous and asynchronous), a history of records of every level through the logger or the registry, of "
    "turns of the background executor in a generated order, of further writers and of replacing or ending a logger with "
    "records still waiting; and up to four threads that log at once; non-trivial: a record is still waiting when its logger "
    "ends, or two threads log");

using namespace web_h;
namespace lg = fi::log;
namespace {
constexpr lg::level levels[] = { lg::level::trace, lg::level::debug, lg::level::info, lg::level::warning, lg::level::error, lg::level::fatal };

struct wanted {
  lg::level lv;
  std::string msg;
  unsigned line = 0;
  lg::record::clock_t::time_point from, to;
};

using log_timer = net::basic_waitable_timer<std::chrono::steady_clock, net::wait_traits<std::chrono::steady_clock>, lg::executor_type>;

// what was wrong; the writer itself ends with its logger
struct log_of {
  std::vector<lg::record> got;
  std::string wrong;
  std::vector<int> turns; // how often each write suspends
};
class recorder : public lg::async_writer {
  std::shared_ptr<log_of> to_;
  bool busy_ = false;

public:
  explicit recorder(std::shared_ptr<log_of> to)
      : to_(std::move(to))
  {
  }
  ~recorder() override
  {
    if (busy_) {
      to_->wrong = "a writer is destroyed while it writes";
    }
  }
  auto async_write(lg::record_ptr rec) -> lg::awaitable<void> override
  {
    if (busy_) {
      to_->wrong = "a write begins before the last one ended";
    }
    busy_ = true;
    int n = to_->turns.empty() ? 0 : to_->turns[to_->got.size() % to_->turns.size()];
    for (int i = 0; i < n; ++i) {
      log_timer t((lg::executor_type()));
      t.expires_after(std::chrono::milliseconds(i % 2));
      co_await t.async_wait(lg::use_awaitable);
    }
    to_->got.push_back(*rec);
    busy_ = false;
  }
};

// a writer and what it must have written when its logger ended
struct output {
  enum kind_t { record, sync_file, async_file, sync_out, async_out } kind = record;
  std::shared_ptr<log_of> records;
  std::string path;
  bool plain = true; // a pattern of our own
  std::vector<wanted> want;
};
const char* kinds[] = { "recorder", "file", "async file", "standard output", "async standard output" };

std::string scratch()
{
  static std::string dir = [] {
    char t[] = "/tmp/pbt-log-XXXXXX";
    if (!::mkdtemp(t)) {
      std::abort();
    }
    static std::string d = t;
    std::atexit([] {
      std::error_code ec;
      std::filesystem::remove_all(d, ec);
    });
    return d;
  }();
  return dir;
}

lg::formatter plain_format()
{
  return lg::formatter::builder().set_pattern("{LV:}|{MSG:}|{LINE:}").build();
}
void attach(lg::async_logger& l, output& o)
{
  static int n = 0;
  std::shared_ptr<lg::async_formattable_writer> w;
  switch (o.kind) {
  case output::record:
    l.add_writer(std::make_shared<recorder>(o.records));
    return;
  case output::sync_file:
    o.path = scratch() + "/" + std::to_string(n++);
    w = lg::make_sync_stream_file_writer(o.path);
    break;
  case output::async_file:
    o.path = scratch() + "/" + std::to_string(n++);
    w = lg::make_async_stream_file_writer(o.path);
    break;
  case output::sync_out:
    w = lg::make_sync_stdout_writer();
    break;
  case output::async_out:
    w = lg::make_async_stdout_writer();
    break;
  }
  if (o.plain) {
    w->set_formatter(plain_format());
  }
  l.add_writer(w);
}
std::string read_file(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  ::unlink(path.c_str());
  return s.str();
}
void check(pbt::Case& c, output& o, const std::string& text)
{
  if (o.kind == output::record) {
    REQM(o.records->wrong.empty(), o.records->wrong);
    auto& got = o.records->got;
    for (std::size_t i = 0; i < std::max(got.size(), o.want.size()); ++i) {
      REQM(i < got.size(), fmt::format("{} of {} records are written; the next is: {}", got.size(), o.want.size(), o.want[i].msg));
      REQM(i < o.want.size(), "a record too many: " + got[i].msg);
      auto& g = got[i];
      auto& w = o.want[i];
      REQ_EQ(g.msg, w.msg);
      REQM(g.lv == w.lv, "the level of " + w.msg);
      REQ_EQ(g.line, w.line);
      REQM(g.file_name.ends_with("c38_logging.cpp"), "the file of a record is " + std::string(g.file_name));
      REQM(g.function_name.find("submit") != std::string_view::npos, "the function of a record is " + std::string(g.function_name));
      REQM(g.time >= w.from && g.time <= w.to, "the time of a record is not the one of its submission");
    }
    return;
  }
  if (o.plain) {
    std::string want;
    for (auto& w : o.want) {
      want += fmt::format("{}|{}|{}\n", lg::to_string(w.lv), w.msg, w.line);
    }
    REQM(text == want, fmt::format("{}: written\n{}\ninstead of\n{}", kinds[o.kind], text.substr(0, 300), want.substr(0, 300)));
    return;
  }
  // the default pattern: each in a line of its own
  std::size_t at = 0;
  for (auto& w : o.want) {
    auto e = text.find('\n', at);
    REQM(e != std::string::npos, "a record is missing: " + w.msg);
    auto line = text.substr(at, e - at);
    auto tail = fmt::format("] {} [c38_logging.cpp:{}:", w.msg, w.line);
    REQM(line.starts_with("[") && line.find(tail) != line.npos && line.find(std::string(lg::to_string(w.lv))) != line.npos, "instead of " + w.msg + " in its place: " + line);
    at = e + 1;
  }
  REQM(at == text.size(), "a record too many: " + text.substr(at));
}

struct logger_t {
  std::shared_ptr<lg::async_logger> p;
  std::vector<bool> allowed = std::vector<bool>(6);
  std::vector<std::unique_ptr<output>> outputs;
  std::size_t submitted = 0;
};

// submits one record in one of the ways there are
void submit(lg::async_logger* l, lg::level lv, const std::string& text, int n, wanted& w)
{
  w.lv = lv;
  w.from = lg::record::clock_t::now();
  if (l) {
    switch (n % 3) {
    case 0:
      w.msg = text;
      l->log(fi::source_location::current(), lv, "{}", text), w.line = __LINE__;
      break;
    case 1:
      w.msg = text + " 7 x";
      l->log(fi::source_location::current(), lv, "{} {} {}", text, 7, 'x'), w.line = __LINE__;
      break;
    default:
      w.msg = "fixed {}";
      l->log(fi::source_location::current(), lv, "fixed {{}}"), w.line = __LINE__;
    }
  } else {
    // through the registry
    w.msg = "<" + text + ">";
    switch (n % 2 ? 6 : static_cast<int>(lv)) {
    case 0:
      lg::trace("<{}>", text), w.line = __LINE__;
      break;
    case 1:
      lg::debug("<{}>", text), w.line = __LINE__;
      break;
    case 2:
      lg::info("<{}>", text), w.line = __LINE__;
      break;
    case 3:
      lg::warning("<{}>", text), w.line = __LINE__;
      break;
    case 4:
      lg::error("<{}>", text), w.line = __LINE__;
      break;
    case 5:
      lg::fatal("<{}>", text), w.line = __LINE__;
      break;
    default:
      lg::log(lv, "<{}>", text), w.line = __LINE__;
    }
  }
  w.to = lg::record::clock_t::now();
}

net::system_context& background()
{
  return net::system_context::instance();
}
// does f, which waits for the background, while this thread is the background
bool with_background(std::function<void()> f, bool run)
{
  auto done = std::make_shared<std::atomic<bool>>(false);
  std::thread t([f = std::move(f), done] {
    f();
    *done = true;
  });
  auto begun = std::chrono::steady_clock::now();
  auto idle_since = begun;
  for (;;) {
    bool d = *done;
    std::size_t n = run ? background().run(true, 1) : 0;
    auto now = std::chrono::steady_clock::now();
    if (n) {
      idle_since = now;
      continue;
    }
    if (d) {
      t.join();
      return true;
    }
    if (now - idle_since > std::chrono::seconds(run ? 4 : 12)) {
      t.detach();
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(20));
  }
}

std::unique_ptr<output> gen_output(pbt::Case& c, bool& out_used, bool suspend)
{
  auto o = std::make_unique<output>();
  o->kind = c.pick<output::kind_t>({ output::record, output::record, output::sync_file, output::async_file, output::sync_out, output::async_out });
  if (o->kind >= output::sync_out) {
    if (out_used || !suspend) {
      o->kind = output::record;
    }
    out_used = true;
  }
  o->plain = c.chance(2, 3);
  if (o->kind == output::record) {
    o->records = std::make_shared<log_of>();
    for (std::size_t n = 0; suspend && c.more(n, 4, 2); ++n) {
      o->records->turns.push_back(static_cast<int>(c.below(4)));
    }
  }
  c.in("writer", std::string(kinds[o->kind]) + (o->plain ? "" : ", default format"));
  return o;
}
void make_logger(pbt::Case& c, logger_t& l)
{
  auto b = lg::async_logger::builder();
  auto size = c.pick<std::size_t>({ 0, 0, 1, 2, 5, 100 });
  if (size || c.chance(1, 2)) {
    b.set_max_buffer_size(size);
  }
  std::string what = "all";
  if (c.chance(1, 3)) {
    l.allowed.assign(6, true);
  } else if (c.chance(1, 2)) {
    auto from = c.below(7);
    for (std::size_t i = 0; i < 6; ++i) {
      l.allowed[i] = i >= from;
    }
    b.set_filter(lg::filter::at_least(from == 6 ? lg::level::off : levels[from]));
    what = "at least " + std::to_string(from);
  } else {
    auto x = c.below(6), y = c.below(6);
    l.allowed[x] = l.allowed[y] = true;
    b.set_filter({ levels[x], levels[y] });
    what = fmt::format("{} and {}", x, y);
  }
  c.in("logger", fmt::format("levels {}, buffer {}", what, size));
  l.p = b.build();
}
// standard output of the process, kept for a while
struct captured_out {
  int saved = -1, fd = -1;
  std::stringstream text;
  std::streambuf* old = nullptr;
  captured_out()
  {
    std::fflush(stdout);
    std::cout.flush();
    saved = ::dup(1);
    fd = ::memfd_create("out", MFD_CLOEXEC);
    ::dup2(fd, 1);
    old = std::cout.rdbuf(text.rdbuf());
  }
  ~captured_out()
  {
    std::cout.rdbuf(old);
    ::dup2(saved, 1);
    ::close(saved);
    ::close(fd);
  }
};
}

SECTION("histories", 1500, 30000)
{
  clean_hooks clean;
  background().set_threads(0);
  background().run(true); // what a failed case before left
  captured_out out;
  gen_parts(c);
  if (auto seed = c.below(1 << 16); seed) {
    auto s = std::make_shared<pbt::u64>(seed);
    background().pick = [s](std::size_t n) {
      *s = pbt::mix(*s);
      return static_cast<std::size_t>(*s % n);
    };
  } else {
    background().pick = {};
  }
  auto& reg = lg::registry::global();
  reg.set_default_logger(nullptr);
  REQM(!reg.default_logger(), "a default logger that was taken away");
  std::vector<std::unique_ptr<logger_t>> ls; // the first is the default one
  bool out_used = false;
  bool waiting = false;
  int serial = 0;
  auto fresh = [&](bool def) {
    auto l = std::make_unique<logger_t>();
    make_logger(c, *l);
    for (std::size_t n = 0; c.more(n, 3, 3); ++n) {
      l->outputs.push_back(gen_output(c, out_used, true));
      attach(*l->p, *l->outputs.back());
    }
    if (def) {
      bool ok = with_background([&] { reg.set_default_logger(l->p); }, true);
      REQM(ok, "set_default_logger() does not end");
      l->p.reset(); // the registry keeps it
      REQM(reg.default_logger().has_value(), "no default logger");
    }
    return l;
  };
  auto ended = [&](logger_t& l) {
    for (auto& o : l.outputs) {
      std::string text;
      if (o->kind == output::sync_file || o->kind == output::async_file) {
        text = read_file(o->path);
      } else if (o->kind == output::sync_out) {
        text = out.text.str();
      } else if (o->kind == output::async_out) {
        text = content_of(out.fd);
      }
      check(c, *o, text);
    }
  };
  std::unique_ptr<logger_t> def, own;
  if (c.chance(2, 3)) {
    def = fresh(true);
  }
  if (!def || c.chance(1, 3)) {
    own = fresh(false);
  }
  std::size_t since_idle[2] = { 0, 0 };
  for (std::size_t n = 0; c.more(n, 30, 12); ++n) {
    switch (c.weighted({ 10, 4, 1, 1, 1 })) {
    case 0: {
      bool through = !own || c.chance(1, 2); // the registry
      auto* l = through ? def.get() : own.get();
      auto lv = c.below(6);
      std::string text = "r" + std::to_string(serial++);
      if (c.chance(1, 8)) {
        text += std::string(c.pick<std::size_t>({ 100, 5000 }), '.');
      }
      wanted w;
      int way = static_cast<int>(c.below(6));
      submit(through ? nullptr : own->p.get(), levels[lv], text, way, w);
      c.op("record", through ? "registry" : "logger", static_cast<int>(lv), way);
      if (l && l->allowed[lv]) {
        ++since_idle[through];
        for (auto& o : l->outputs) {
          o->want.push_back(w);
        }
      }
      break;
    }
    case 1: {
      auto turns = c.chance(1, 4) ? 1'000'000 : c.below(12);
      c.op("turns", turns);
      background().run(true, turns);
      if (turns > 12) {
        since_idle[0] = since_idle[1] = 0;
        for (auto* l : { def.get(), own.get() }) {
          for (std::size_t i = 0; l && i < l->outputs.size(); ++i) {
            auto& o = *l->outputs[i];
            if (o.kind == output::record) {
              check(c, o, {});
            }
          }
        }
      }
      break;
    }
    case 2: {
      // another default logger
      if (!def) {
        break;
      }
      waiting = waiting || since_idle[1];
      auto old = std::move(def);
      if (c.chance(1, 2)) {
        c.op("replace the default logger");
        def = fresh(true);
      } else {
        c.op("end the default logger");
        bool ok = with_background([&] { reg.set_default_logger(nullptr); }, true);
        REQM(ok, "a logger does not end");
      }
      since_idle[1] = 0;
      ended(*old);
      // what standard output was given to is done with
      for (auto& o : old->outputs) {
        if (o->kind >= output::sync_out) {
          out_used = true;
        }
      }
      break;
    }
    case 3: {
      if (!own) {
        break;
      }
      c.op("end the logger");
      waiting = waiting || since_idle[0];
      auto old = std::move(own);
      bool ok = with_background([p = std::move(old->p)]() mutable { p.reset(); }, true);
      REQM(ok, "a logger does not end");
      since_idle[0] = 0;
      ended(*old);
      if (c.chance(1, 2)) {
        own = fresh(false);
      }
      break;
    }
    default: {
      // one more writer, while nothing waits
      background().run(true);
      since_idle[0] = since_idle[1] = 0;
      auto* l = own ? own.get() : def.get();
      if (l) {
        c.op("another writer");
        l->outputs.push_back(gen_output(c, out_used, true));
        attach(own ? *l->p : *reg.default_logger(), *l->outputs.back());
      }
    }
    }
  }
  if (def) {
    waiting = waiting || since_idle[1];
    bool ok = with_background([&] { reg.set_default_logger(nullptr); }, true);
    REQM(ok, "a logger does not end");
    ended(*def);
  }
  if (own) {
    waiting = waiting || since_idle[0];
    bool ok = with_background([p = std::move(own->p)]() mutable { p.reset(); }, true);
    REQM(ok, "a logger does not end");
    ended(*own);
  }
  background().run(true);
  c.nontrivial(waiting);
}

SECTION("threads", 150, 6000)
{
  clean_hooks clean;
  background().pick = {};
  background().set_threads(3);
  struct stop {
    ~stop()
    {
      background().set_threads(0);
    }
  } stop_it;
  logger_t l;
  make_logger(c, l);
  bool out_used = true;
  for (std::size_t n = 0; n < 1 || c.more(n, 3, 2); ++n) {
    l.outputs.push_back(gen_output(c, out_used, false));
    l.outputs.back()->plain = true;
    attach(*l.p, *l.outputs.back());
  }
  std::size_t nt = 1 + c.below(4);
  std::vector<std::size_t> counts(nt);
  for (auto& n : counts) {
    n = c.below(60);
  }
  c.in("records of each thread", fmt::format("{}", fmt::join(counts, " ")));
  auto pause = c.below(4);
  std::vector<std::vector<wanted>> want(nt);
  {
    std::vector<std::thread> ts;
    std::atomic<bool> go { false };
    for (std::size_t i = 0; i < nt; ++i) {
      ts.emplace_back([&, i] {
        while (!go) {
          std::this_thread::yield();
        }
        for (std::size_t k = 0; k < counts[i]; ++k) {
          wanted w;
          submit(l.p.get(), levels[(i + k) % 6], fmt::format("t{} {}", i, k), static_cast<int>(k % 2), w);
          if (l.allowed[(i + k) % 6]) {
            want[i].push_back(w);
          }
          if (pause && k % pause == 0) {
            std::this_thread::yield();
          }
        }
      });
    }
    go = true;
    for (auto& t : ts) {
      t.join();
    }
  }
  bool ok = with_background([p = std::move(l.p)]() mutable { p.reset(); }, false);
  REQM(ok, "a logger does not end");
  for (auto& o : l.outputs) {
    // the order in which the threads' records were taken is the writers' own
    std::vector<std::pair<std::string, std::string>> lines; // "t0", the line
    if (o->kind == output::record) {
      REQM(o->records->wrong.empty(), o->records->wrong);
      for (auto& r : o->records->got) {
        lines.emplace_back(r.msg.substr(0, r.msg.find(' ')), fmt::format("{}|{}|{}", lg::to_string(r.lv), r.msg, r.line));
      }
    } else {
      auto text = read_file(o->path);
      std::size_t at = 0;
      while (at < text.size()) {
        auto e = text.find('\n', at);
        REQM(e != text.npos, "the last line is not whole");
        auto line = text.substr(at, e - at);
        auto b = line.find('|');
        REQM(b != line.npos && line.find(' ', b) != line.npos, "a line that is none: " + line);
        lines.emplace_back(line.substr(b + 1, line.find(' ', b) - b - 1), line);
        at = e + 1;
      }
    }
    std::vector<std::size_t> at(nt);
    for (auto& [who, line] : lines) {
      REQM(who.size() == 2 && who[0] == 't' && who[1] >= '0' && static_cast<std::size_t>(who[1] - '0') < nt, "a line that is none: " + line);
      auto i = static_cast<std::size_t>(who[1] - '0');
      REQM(at[i] < want[i].size(), "a record too many: " + line);
      auto& w = want[i][at[i]++];
      REQ_EQ(line, fmt::format("{}|{}|{}", lg::to_string(w.lv), w.msg, w.line));
    }
    for (std::size_t i = 0; i < nt; ++i) {
      REQM(at[i] == want[i].size(), fmt::format("{}: {} of {} records of thread {}", kinds[o->kind], at[i], want[i].size(), i));
    }
  }
  c.nontrivial(nt > 1);
}
