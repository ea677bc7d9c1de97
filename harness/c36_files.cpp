// C36: static files are served whole, partial or not-modified consistently.
//
// The If-Modified-Since branch is compiled by compilers that have
// std::chrono::parse; this one does not, so the harness brings a reader of the
// one format it is asked for and turns the branch on.
#define FITORIA_HAS_STD_CHRONO_PARSE
#include <chrono>
#include <istream>
#include <string>
#include <string_view>
namespace std::chrono {
template <typename D>
struct imf_reader {
  std::string_view format;
  time_point<system_clock, D>& to;
  friend std::istream& operator>>(std::istream& is, imf_reader r)
  {
    std::string s;
    for (int i = 0; i < 29; ++i) {
      auto ch = is.get();
      if (ch == std::istream::traits_type::eof()) {
        return is;
      }
      s += static_cast<char>(ch);
    }
    static const std::string_view days = "SunMonTueWedThuFriSat", months = "JanFebMarAprMayJunJulAugSepOctNovDec";
    auto num = [&](int at, int n) {
      int v = 0;
      for (int i = 0; i < n; ++i) {
        if (s[at + i] < '0' || s[at + i] > '9') {
          return -1;
        }
        v = v * 10 + (s[at + i] - '0');
      }
      return v;
    };
    auto m = months.find(s.substr(8, 3)), w = days.find(s.substr(0, 3));
    int d = num(5, 2), y = num(12, 4), hh = num(17, 2), mm = num(20, 2), ss = num(23, 2);
    bool shape = r.format == "%a, %d %b %Y %T GMT" && s.substr(3, 2) == ", " && s[7] == ' ' && s[11] == ' ' && s[16] == ' ' && s[19] == ':' && s[22] == ':' && s.substr(25) == " GMT";
    if (!shape || m == std::string_view::npos || m % 3 || w == std::string_view::npos || w % 3 || d < 1 || d > 31 || y < 0 || hh < 0 || hh > 23 || mm < 0 || mm > 59 || ss < 0 || ss > 59) {
      is.setstate(std::ios::failbit);
      return is;
    }
    auto date = year(y) / static_cast<int>(m / 3 + 1) / d;
    if (!date.ok() || weekday(sys_days(date)).c_encoding() != w / 3) {
      is.setstate(std::ios::failbit);
      return is;
    }
    r.to = time_point_cast<D>(sys_days(date) + hours(hh) + minutes(mm) + seconds(ss));
    return is;
  }
};
template <typename D>
imf_reader<D> parse(const char* format, time_point<system_clock, D>& to)
{
  return { format, to };
}
}
#include "server.hpp"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <fmt/format.h>
#include <sys/stat.h>

static pbt::Rule rule(
    "a client that remembers validators asks, over one to eight steps, for files of generated name, size and time that "
    "change between the steps, with every form of Range (inside, at and beyond the end, suffixes, lists, malformed), "
    "If-None-Match (current, old, foreign, weak, lists, any, malformed) and If-Modified-Since (around the file's time to "
    "the second), by GET and HEAD, through both open functions, with failures of the file's operations; non-trivial: a "
    "range, a validator or a failure decides the response");

using namespace web_h;
namespace fs = std::filesystem;
namespace {
struct scratch {
  std::string dir;
  scratch()
  {
    char t[] = "/dev/shm/pbt-c36-XXXXXX";
    char u[] = "/tmp/pbt-c36-XXXXXX";
    auto p = ::mkdtemp(t);
    if (!p) {
      p = ::mkdtemp(u);
    }
    if (!p) {
      std::abort();
    }
    dir = p;
  }
  ~scratch()
  {
    std::error_code ec;
    fs::remove_all(dir, ec);
  }
};

std::string imf(long long t)
{
  // civil calendar, from the days since 1970
  long long days = t / 86400, sec = t % 86400;
  if (sec < 0) {
    sec += 86400;
    --days;
  }
  long long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
  auto doe = static_cast<unsigned>(z - era * 146097);
  auto yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  auto doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  auto mp = (5 * doy + 2) / 153;
  auto d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  auto y = static_cast<long long>(yoe) + era * 400 + (m <= 2);
  static const char* wd[] = { "Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed" };
  static const char* mo[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  return fmt::format("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", wd[((days % 7) + 7) % 7], d, mo[m - 1], y, sec / 3600, sec / 60 % 60, sec % 60);
}

struct file_state {
  std::string name, path, content;
  long long second = 0;
  long nano = 0;
  int version = 0; // of size and second
  std::string mime, disposition;
  std::map<std::pair<std::size_t, long long>, int> states;
  std::map<std::string, int> tags; // entity tags sent, and the version they were sent for
  void write() const
  {
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    std::size_t at = 0;
    while (fd >= 0 && at < content.size()) {
      auto n = ::write(fd, content.data() + at, content.size() - at);
      if (n <= 0) {
        std::abort();
      }
      at += static_cast<std::size_t>(n);
    }
    struct ::timespec ts[2] = { { second, nano }, { second, nano } };
    if (fd < 0 || ::futimens(fd, ts)) {
      std::abort();
    }
    ::close(fd);
  }
};
void gen_time(pbt::Case& c, file_state& f)
{
  switch (c.below(4)) {
  case 0:
    f.second = 1700000000 + static_cast<long long>(c.below(100000));
    break;
  case 1:
    f.second = c.pick<long long>({ 0, 1, 951782400, 951868799, 1709164800, 4102444799, 4294967296ll });
    break;
  case 2:
    f.second = -static_cast<long long>(c.below(2000000000));
    break;
  default:
    f.second = static_cast<long long>(c.below(1ull << 33));
  }
  f.nano = c.chance(1, 2) ? 0 : c.pick<long>({ 1, 500000000, 999999999, 123456789 });
}

enum range_kind { no_range, part, unsatisfiable };
struct range_plan {
  range_kind kind = no_range;
  std::string text;
  std::uint64_t first = 0, count = 0;
};
std::string num(std::uint64_t n)
{
  return std::to_string(n);
}
range_plan gen_range(pbt::Case& c, std::uint64_t size)
{
  range_plan r;
  auto bad = [&](std::string t) {
    r.kind = unsatisfiable;
    r.text = std::move(t);
  };
  auto good = [&](std::string t, std::uint64_t first, std::uint64_t count) {
    r.kind = count ? part : unsatisfiable;
    r.text = std::move(t);
    r.first = first;
    r.count = count;
  };
  auto inside = [&] {
    auto a = c.chance(1, 2) ? c.below(size) : c.pick<pbt::u64>({ 0, size - 1, size / 2 });
    auto b = c.chance(1, 2) ? size - 1 : a + c.below(size - a);
    return std::pair(a, b);
  };
  const auto top = ~std::uint64_t(0);
  switch (c.weighted({ 4, 4, 3, 3, 3, 2, 2, 2 })) {
  case 1: // first-last
    if (size) {
      auto [a, b] = inside();
      good(num(a) + "-" + num(b), a, b - a + 1);
      break;
    }
    bad("0-0");
    break;
  case 2: // first-
    if (size && c.chance(3, 4)) {
      auto a = inside().first;
      good(num(a) + "-", a, size - a);
    } else {
      bad(num(c.chance(1, 2) ? size : size + c.below(top - size)) + "-");
    }
    break;
  case 3: { // -count
    auto n = c.chance(1, 4) ? 0 : c.chance(1, 2) ? c.below(size + 3) : c.pick<pbt::u64>({ size, size + 1, top, 1 });
    auto k = std::min<std::uint64_t>(n, size);
    good("-" + num(n), size - k, k);
    break;
  }
  case 4: // reaching beyond the end
    if (size && c.chance(1, 2)) {
      bad(num(inside().first) + "-" + num(c.pick<pbt::u64>({ size, size + 1, top - 1, top, 1ull << 63 })));
    } else {
      bad(num(size + c.below(3)) + "-" + num(size + 5));
    }
    break;
  case 5: // a list, of which the first counts
    if (size) {
      auto [a, b] = inside();
      auto [d, e] = inside();
      good(num(a) + "-" + num(b) + c.pick<std::string>({ ",", ", " }) + num(d) + "-" + (c.chance(1, 2) ? num(e) : ""), a, b - a + 1);
      break;
    }
    bad("0-0,1-1");
    break;
  case 6: // reversed or no range at all
    bad(c.pick<std::string>({ "", "-", "x-", "1-0", "5-2", "0-1,", "0-0,x", "--1", "0", "0x0-1", "+0-1", "0-99999999999999999999", "99999999999999999999-", "-18446744073709551616", "0--1" }));
    break;
  case 7: // another unit
    r.kind = unsatisfiable;
    r.text = c.pick<std::string>({ "octets", "byte", "", "bytess", "items" }) + "=0-0";
    return r;
  default:
    return r;
  }
  r.text = text::flip(c, "bytes") + "=" + r.text;
  return r;
}

struct get_plan {
  bool plain = false; // the open function without a request
  bool head = false, own_type = false;
  range_plan range;
  std::string none_match, modified_since;
  bool matches = false, bad = false; // what the conditions say
};

// what the file is announced as
void names(pbt::Case& c, file_state& f)
{
  static const std::vector<std::pair<std::string, std::string>> known { { ".txt", "text/plain" }, { ".html", "text/html" }, { ".js", "application/javascript" }, { ".json", "application/json" }, { ".wasm", "application/wasm" }, { ".png", "image/png" }, { ".flv", "video/x-flv" }, { ".css", "text/css" }, { ".xml", "application/xml" } };
  static const std::string odd = "abz AZ09-_()'\"\\;=%,\xc3\xa9";
  std::string base;
  bool strange = c.chance(1, 12);
  for (std::size_t i = 0; i < 1 || c.more(i, 8, 4); ++i) {
    base += strange && c.chance(1, 3) ? c.pick<char>({ '\n', '\r', '\t', '\x7f', '\x01', ':' }) : odd[c.below(odd.size())];
  }
  std::string ext;
  f.mime = "application/octet-stream";
  switch (c.below(3)) {
  case 0: {
    auto& k = c.pick(known);
    ext = c.chance(1, 2) ? k.first : text::flip(c, k.first);
    f.mime = k.second;
    break;
  }
  case 1:
    ext = c.pick<std::string>({ ".bin", ".txtx", ".", ".txt.bin", ".tmp" });
    break;
  default:;
  }
  f.name = base + ext;
  bool shown = f.mime != "application/octet-stream" && f.mime != "application/xml";
  f.disposition = shown ? "inline" : "attachment";
}
// RFC 6266: attachment; filename=<quoted-string>
std::string read_disposition(const std::string& s, std::string& name)
{
  const std::string head = "attachment; filename=\"";
  if (!s.starts_with(head)) {
    return "does not begin with " + head;
  }
  for (std::size_t i = head.size(); i < s.size(); ++i) {
    auto u = static_cast<unsigned char>(s[i]);
    if ((u < 32 && u != '\t') || u == 127) {
      return "a control character";
    }
    if (s[i] == '"') {
      return i + 1 == s.size() ? "" : "more after the file name";
    }
    if (s[i] == '\\' && ++i == s.size()) {
      break;
    }
    name += s[i];
  }
  return "an open quote";
}
bool printable(const std::string& s)
{
  return std::all_of(s.begin(), s.end(), [](char ch) { return static_cast<unsigned char>(ch) >= 32 && ch != 127; });
}

struct running {
  scratch dir;
  file_state* file = nullptr;
  get_plan* get = nullptr;
  std::error_code open_error;
  int calls = 0;
};

void judge(pbt::Case& c, file_state& f, const get_plan& g, const reply& r, bool failed_read)
{
  const auto size = f.content.size();
  auto no = [&](std::string_view name) { REQM(!r.headers.get(name), "a " + std::string(name) + " header: " + r.get(name)); };
  auto validators = [&] {
    REQ_EQ(r.get("last-modified"), imf(f.second));
    auto tag = r.get("etag");
    REQM(tag.size() > 2 && tag[0] == '"' && tag.back() == '"' && tag.find('"', 1) == tag.size() - 1, "entity tag: " + tag);
    auto [it, fresh] = f.tags.emplace(tag, f.version);
    REQM(it->second == f.version, "the entity tag of an earlier state of the file");
    for (auto& [t, v] : f.tags) {
      REQM(v != f.version || t == tag, "the entity tag changed although the file did not");
    }
  };
  auto described = [&] {
    validators();
    REQ_EQ(r.get("content-type"), g.own_type ? std::string("text/x-own") : f.mime);
    auto d = r.get("content-disposition");
    if (f.disposition == "inline") {
      REQ_EQ(d, std::string("inline"));
    } else {
      std::string name;
      auto why = read_disposition(d, name);
      REQM(why.empty(), "Content-Disposition: " + why);
      REQM(!printable(f.name) || name == f.name, "Content-Disposition names another file: " + d);
    }
  };
  auto body = [&](std::uint64_t first, std::uint64_t count) {
    auto want = g.head ? std::string() : f.content.substr(first, count);
    if (failed_read) {
      REQM(static_cast<bool>(r.body_error), "a body that failed ends like a whole one");
      REQM(want.starts_with(r.body), "other bytes than the file's");
      return;
    }
    REQM(!r.body_error, "the body fails: " + r.body_error.message());
    REQM(r.body == want, fmt::format("the body has {} bytes, not the {} of the file from {}", r.body.size(), want.size(), first));
  };
  auto accepts = [&] { REQ_EQ(r.get("accept-ranges"), std::string("bytes")); };
  if (g.plain) {
    REQ_EQ(r.status, 200);
    described();
    no("content-range");
    body(0, size);
    return;
  }
  if (g.bad) {
    REQ_EQ(r.status, 400);
    c.label("malformed condition");
    return;
  }
  if (g.matches) {
    REQ_EQ(r.status, 304);
    validators();
    REQ_EQ(r.body, std::string());
    c.label("not modified");
    return;
  }
  if (g.range.kind == unsatisfiable) {
    REQ_EQ(r.status, 416);
    accepts();
    REQ_EQ(r.get("content-range"), "bytes */" + num(size));
    REQM(g.head || r.body.find(f.content) == std::string::npos || size < 30, "the file in an answer that refuses it");
    c.label("unsatisfiable range");
    return;
  }
  if (g.range.kind == part) {
    REQ_EQ(r.status, 206);
    described();
    accepts();
    auto cr = r.get("content-range");
    auto want = fmt::format("bytes {}-{}/", g.range.first, g.range.first + g.range.count - 1);
    // the complete length is a recorded finding (known:partial-total)
    REQM(cr == want + num(size) || cr == want + num(g.range.count), "Content-Range is " + cr + ", not " + want + num(size));
    body(g.range.first, g.range.count);
    c.label("partial");
    return;
  }
  REQ_EQ(r.status, 200);
  described();
  accepts();
  no("content-range");
  body(0, size);
  c.label("whole");
}

auto file_server(net::io_context& ioc, running& run)
{
  return web::http_server::builder(ioc)
      .set_exception_handler([](std::exception_ptr) {})
      .serve(web::route::any<"/file">([&run](const web::request& req) -> awaitable<fi::expected<web::static_file, web::response>> {
        ++run.calls;
        auto ex = co_await net::this_coro::executor;
        auto f = run.get->plain ? web::static_file::open(ex, run.file->path) : web::static_file::open(ex, run.file->path, req);
        if (!f) {
          run.open_error = f.error();
          co_return fi::unexpected { web::response::not_found().set_body("no file") };
        }
        if (run.get->own_type) {
          f->set_content_type(*fi::mime::mime_view::parse("text/x-own"));
        }
        co_return std::move(*f);
      }))
      .build();
}
}

SECTION("requests", 4000, 120000)
{
  clean_hooks clean;
  running run;
  std::vector<file_state> files(1 + c.below(2));
  int n = 0;
  for (auto& f : files) {
    names(c, f);
    auto sub = run.dir.dir + "/" + std::to_string(n++);
    fs::create_directory(sub);
    f.path = sub + "/" + f.name;
    f.content = gen_body(c);
    gen_time(c, f);
    f.states[{ f.content.size(), f.second }] = 0;
    c.in("file", f.name);
    in_body(c, "content", f.content);
    c.in("time", fmt::format("{}.{:09}", f.second, f.nano));
    f.write();
  }
  // files that grow later are read in the same way
  gen_parts(c);
  if (auto part = net::standin::hooks().part) {
    net::standin::hooks().part = [part](std::size_t n) { return std::max(part(n), std::min<std::size_t>(n, n / 16 + 1)); };
  }
  net::io_context ioc;
  auto server = file_server(ioc, run);
  bool decided = false;
  for (std::size_t step = 0; step < 1 || c.more(step, 8, 4); ++step) {
    auto& f = files[c.below(files.size())];
    if (step && c.chance(1, 3)) {
      if (c.chance(2, 3)) {
        f.content = c.chance(1, 2) ? gen_body(c) : f.content + c.pick<std::string>({ "x", "\n", "more" });
      }
      if (c.chance(1, 3)) {
        gen_time(c, f);
      } else {
        f.second += c.pick<int>({ 1, -1, 60, 86400 });
      }
      // size and second make a state; its tag may come back with it
      f.version = f.states.emplace(std::pair(f.content.size(), f.second), static_cast<int>(f.states.size())).first->second;
      c.in("changed", fmt::format("{} bytes, {}.{:09}", f.content.size(), f.second, f.nano));
      f.write();
    }
    get_plan g;
    g.plain = c.chance(1, 8);
    g.head = c.chance(1, 8);
    g.own_type = c.chance(1, 8);
    g.range = gen_range(c, f.content.size());
    auto b = g.head ? web::test_request::head() : web::test_request::get();
    if (g.range.kind != no_range) {
      b.set_header(http::field::range, g.range.text);
    }
    std::string current, old;
    for (auto& [t, v] : f.tags) {
      (v == f.version ? current : old) = t;
    }
    if (c.chance(1, 3)) { // If-None-Match
      std::vector<std::string> tags;
      switch (c.weighted({ 6, 1, 1 })) {
      case 0:
        for (std::size_t i = 0; i < 1 || c.more(i, 3, 2); ++i) {
          std::string t;
          bool weak = c.chance(1, 3);
          switch (c.below(3)) {
          case 0:
            t = current;
            break;
          case 1:
            t = old;
            break;
          default:
            t = c.pick<std::string>({ "\"\"", "\"x\"", "\"a,b\"", "\"0-0000000000000000\"" });
          }
          if (t.empty()) {
            t = "\"y\"";
          }
          g.matches = g.matches || (t == current && !current.empty());
          tags.push_back((weak ? "W/" : "") + t);
        }
        for (auto& t : tags) {
          g.none_match += (g.none_match.empty() ? "" : c.pick<std::string>({ ",", ", ", " , " })) + t;
        }
        break;
      case 1:
        g.none_match = "*";
        g.matches = true;
        break;
      default:
        g.none_match = c.pick<std::string>({ "\"", "x", "\"a\" \"b\"", "w/\"a\"", "\"\"\"" });
        g.bad = true;
      }
      b.set_header(http::field::if_none_match, g.none_match);
    }
    if (c.chance(1, 4)) {
      if (c.chance(1, 6)) {
        g.modified_since = c.pick<std::string>({ "yesterday", "\"\"\"", "Thu, 01 Jan 1970 00:00:00", "1", "Thu, 01 Foo 1970 00:00:00 GMT" });
        g.bad = g.bad || g.none_match.empty();
      } else {
        auto t = f.second + c.pick<long long>({ 0, 1, -1, 86400, -86400 });
        g.modified_since = imf(t);
        if (g.none_match.empty()) {
          g.matches = t >= f.second;
        }
      }
      b.set_header(http::field::if_modified_since, g.modified_since);
    }
    const char* fails = c.chance(1, 8) ? c.pick<const char*>({ "open", "seek", "read" }) : nullptr;
    auto nth = fails ? c.below(3) : 0;
    std::size_t ops = 0;
    bool failed = false;
    auto keep = net::standin::hooks().part;
    if (fails) {
      net::standin::hooks().fail = [&](const char* o) -> std::error_code {
        if (!std::strcmp(o, fails) && ops++ == nth) {
          failed = true;
          return std::make_error_code(std::errc::io_error);
        }
        return {};
      };
    }
    c.in("request", fmt::format("{}{}, range {}, none-match {}, since {}{}", g.head ? "HEAD" : "GET", g.plain ? " plain" : "", g.range.text, g.none_match, g.modified_since, fails ? fmt::format(", {} {} fails", fails, nth) : ""));
    run.file = &f;
    run.get = &g;
    run.calls = 0;
    run.open_error = {};
    auto r = exchange(ioc, server, "/file", b.set_body());
    net::standin::hooks().fail = {};
    REQM(r.answered && run.calls == 1, "no answer");
    if (failed && !std::strcmp(fails, "open")) {
      REQM(static_cast<bool>(run.open_error), "an open that fails is not reported");
      REQ_EQ(r.status, 404);
      decided = true;
      continue;
    }
    REQM(!run.open_error, "open: " + run.open_error.message());
    decided = decided || failed || g.bad || g.matches || g.range.kind != no_range;
    judge(c, f, g, r, failed);
  }
  c.nontrivial(decided);
}

SECTION("no file", 300, 3000)
{
  running run;
  auto path = run.dir.dir;
  auto kind = c.below(4);
  if (kind == 0) {
    path += "/missing." + c.pick<std::string>({ "txt", "bin" });
  } else if (kind == 1) {
    path += "/";
  } else if (kind == 2) {
    path.clear();
  } else {
    std::ofstream(path + "/f") << "x";
    path += "/f/g";
  }
  c.in("path", path.substr(std::min(path.size(), run.dir.dir.size())));
  c.in("kind", kind);
  file_state f;
  f.path = path;
  get_plan g;
  g.plain = c.chance(1, 2);
  run.file = &f;
  run.get = &g;
  net::io_context ioc;
  auto server = file_server(ioc, run);
  auto r = exchange(ioc, server, "/file", web::test_request::get().set_body());
  REQM(static_cast<bool>(run.open_error), "opened what is not a file");
  REQ_EQ(r.status, 404);
  c.nontrivial(true);
}

KNOWN_PROBE("partial-total")
{
  running run;
  file_state f;
  f.path = run.dir.dir + "/f";
  f.content = "0123456789";
  f.write();
  get_plan g;
  run.file = &f;
  run.get = &g;
  net::io_context ioc;
  auto server = file_server(ioc, run);
  auto r = exchange(ioc, server, "/file", web::test_request::get().set_header(http::field::range, "bytes=2-4").set_body());
  REQ_EQ(r.status, 206);
  REQ_EQ(r.get("content-range"), std::string("bytes 2-4/10"));
}
