// C31: body streams deliver every byte once, in order.
#include "web.hpp"
#include <fitoria/core/dynamic_buffer.hpp>
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/any_body.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_file_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>

static pbt::Rule rule(
    "histories of prepare, commit, consume and release on dynamic buffers of "
    "several containers and limits; bodies (up to 200 kB, around the internal "
    "buffer sizes) read piece by piece, to their end or into a file through "
    "every stream type, with generated piece sizes, bytes per system call and "
    "failing reads and writes; non-trivial: bytes were consumed and appended in "
    "turn, or the body came in two or more pieces, or a read or write failed");

using namespace web_h;
namespace web = fi::web;

namespace {
template <typename Container>
void queue(pbt::Case& c, std::size_t limit)
{
  using value = typename Container::value_type;
  bool limited = limit != 0;
  std::string held;
  fi::dynamic_buffer<Container> b;
  if (limited) {
    b = fi::dynamic_buffer<Container>(limit);
  } else if (c.chance(1, 2)) {
    held = c.bytes(20);
    c.in("made from", held);
    b = fi::dynamic_buffer<Container>(
        Container(reinterpret_cast<const value*>(held.data()),
                  reinterpret_cast<const value*>(held.data()) + held.size()));
  }
  if (limited) {
    REQ_EQ(b.max_size(), limit);
  }
  int appended = 0, consumed = 0;
  auto judge = [&] {
    REQ_EQ(b.size(), held.size());
    const auto& k = b;
    REQ_EQ(k.data().size(), held.size());
    REQ_EQ(std::string(static_cast<const char*>(k.data().data()), k.data().size()), held);
    REQ_EQ(std::string(static_cast<const char*>(k.cdata().data()), k.cdata().size()), held);
    REQ_EQ(std::string(static_cast<char*>(b.data().data()), b.data().size()), held);
    REQM(b.capacity() >= b.size(), "capacity below the size");
  };
  judge();
  for (std::size_t i = 0; i < 2 || c.more(i, 40, 12); ++i) {
    switch (c.weighted({ 8, 6, 1, 1 })) {
    case 0: {
      std::size_t n = limited ? c.below(limit + 3) : c.below(24);
      if (!limited && c.chance(1, 30)) {
        n = 5000;
      }
      std::size_t k = c.chance(1, 2) ? n : c.below(n + 1);
      c.op("prepare, commit", n, k);
      bool thrown = false;
      try {
        auto w = b.prepare(n);
        REQ_EQ(w.size(), n);
        // all of it may be written to, whatever is committed
        std::string s(n, '\0');
        auto seed = c.below(256);
        for (std::size_t x = 0; x < n; ++x) {
          s[x] = static_cast<char>(seed + x * 7);
        }
        std::memcpy(w.data(), s.data(), n);
        b.commit(k);
        held += s.substr(0, k);
        appended += k > 0 && consumed > 0;
      } catch (const std::length_error&) {
        thrown = true;
        c.label("too long");
      }
      REQ_EQ(thrown, limited && held.size() - (thrown ? 0 : k) + n > limit);
      break;
    }
    case 1: {
      std::size_t n = c.chance(1, 12) ? std::size_t(0) - c.below(3) : c.below(held.size() + 3);
      c.op("consume", n);
      b.consume(n);
      consumed += n > 0 && !held.empty();
      held.erase(0, std::min(n, held.size()));
      break;
    }
    case 2: {
      // a copy or a moved-to buffer goes on where this one was
      c.op("copy");
      auto d = b;
      b = fi::dynamic_buffer<Container>(1);
      b = std::move(d);
      if (limited) {
        REQ_EQ(b.max_size(), limit);
      }
      break;
    }
    default: {
      c.op("release");
      auto d = b;
      Container out = d.release();
      REQ_EQ(std::string(reinterpret_cast<const char*>(out.data()), out.size()), held);
      break;
    }
    }
    judge();
  }
  c.nontrivial(appended > 0);
  Container out = b.release();
  REQ_EQ(std::string(reinterpret_cast<const char*>(out.data()), out.size()), held);
}

template <typename Stream>
auto all_of(pbt::Case& c, Stream& s, std::string& got, int& pieces) -> awaitable<std::error_code>
{
  for (;;) {
    auto d = co_await s.async_read_some();
    if (!d) {
      break;
    }
    if (!*d) {
      co_return d->error();
    }
    ++pieces;
    got += str(**d);
    REQM(pieces < 300000, "the stream does not end");
  }
  // the end stays the end
  for (std::size_t i = c.below(3); i > 0; --i) {
    REQM(!(co_await s.async_read_some()), "the stream goes on after its end");
  }
  co_return std::error_code();
}
template <typename Container, typename Stream>
auto until_eof(Stream& s, std::string& got) -> awaitable<std::error_code>
{
  auto r = co_await web::async_read_until_eof<Container>(s);
  if (!r) {
    co_return r.error();
  }
  got.assign(reinterpret_cast<const char*>(r->data()), r->size());
  co_return std::error_code();
}
template <typename Stream>
auto any_way(pbt::Case& c, int way, Stream& s, std::string& got, int& pieces) -> awaitable<std::error_code>
{
  switch (way) {
  case 0:
    co_return co_await all_of(c, s, got, pieces);
  case 1:
    co_return co_await until_eof<std::string>(s, got);
  case 2:
    co_return co_await until_eof<fi::bytes>(s, got);
  case 3:
    co_return co_await until_eof<std::vector<char>>(s, got);
  default: {
    int fd = scratch_file("");
    fi::stream_file f(co_await net::this_coro::executor, ::dup(fd));
    auto r = co_await web::async_read_into_stream_file(s, f);
    got = content_of(fd);
    ::close(fd);
    if (!r) {
      co_return r.error();
    }
    REQ_EQ(*r, got.size());
    co_return std::error_code();
  }
  }
}
const char* way_name(int w)
{
  static const char* n[] = { "piece by piece", "into a string", "into bytes", "into chars", "into a file" };
  return n[w];
}
}

SECTION("dynamic buffers", 12000, 300000)
{
  std::size_t limit = c.chance(1, 2) ? 1 + c.below(24) : 0;
  auto kind = c.below(3);
  c.in("container", static_cast<int>(kind));
  c.in("limit", limit);
  switch (kind) {
  case 0:
    return queue<std::vector<std::byte>>(c, limit);
  case 1:
    return queue<std::string>(c, limit);
  default:
    return queue<std::vector<unsigned char>>(c, limit);
  }
}

SECTION("pieces", 6000, 150000)
{
  auto body = gen_body(c);
  auto pieces = cut(c, body, true);
  in_pieces(c, pieces);
  gen_parts(c);
  auto way = static_cast<int>(c.below(5));
  c.in("read", way_name(way));
  piece_stream p;
  p.s->pieces = pieces;
  p.s->suspend = c.chance(1, 4);
  if (c.chance(1, 4)) {
    p.s->error = std::make_error_code(std::errc::connection_reset);
    c.note("then an error");
  }
  int nest = static_cast<int>(c.below(3));
  auto st = p.s;
  c.nontrivial(pieces.size() > 1 || st->error);
  std::string got;
  int n = 0;
  bool done = false;
  drive(c, [&]() -> awaitable<void> {
    std::error_code e;
    if (nest == 0) {
      e = co_await any_way(c, way, p, got, n);
    } else {
      web::any_async_readable_stream a(std::move(p));
      if (nest == 2) {
        web::any_body b(web::any_body::chunked {}, std::move(a));
        REQM(std::holds_alternative<web::any_body::chunked>(b.size()), "kind of a body");
        web::any_body moved(std::move(b));
        web::any_body d;
        d = std::move(moved);
        e = co_await any_way(c, way, d.stream(), got, n);
      } else {
        e = co_await any_way(c, way, a, got, n);
      }
    }
    REQM(e == st->error, "the error of the stream is not reported");
    if (!st->error || way == 0 || way == 4) {
      REQM(got == body, "other bytes than the stream's");
    }
    if (way == 0 && !st->error) {
      REQ_EQ(static_cast<std::size_t>(n), pieces.size());
    }
    done = true;
  });
  REQM(done, "did not run");
}

SECTION("vectors", 5000, 120000)
{
  auto body = gen_body(c);
  in_body(c, "bytes", body);
  auto way = static_cast<int>(c.below(5));
  c.in("read", way_name(way));
  auto how = c.below(4);
  c.nontrivial(body.size() > 100 || how > 1);
  drive(c, [&]() -> awaitable<void> {
    web::async_readable_vector_stream s;
    if (how == 0) {
      s = web::async_readable_vector_stream(to_bytes(body));
    } else {
      auto copy = std::make_unique<std::string>(body);
      s = web::async_readable_vector_stream(std::span<const char>(copy->data(), copy->size()));
    }
    // copies are read apart from each other
    auto t = s;
    std::string got, got2;
    int n = 0;
    auto e = how == 3 ? co_await [&]() -> awaitable<std::error_code> {
      web::any_async_readable_stream a(std::move(s));
      web::any_async_readable_stream b(web::async_readable_vector_stream {});
      b = std::move(a);
      co_return co_await any_way(c, way, b, got, n);
    }()
                      : co_await any_way(c, way, s, got, n);
    REQM(!e, "an error from memory");
    REQM(got == body, "other bytes than the stream's");
    e = co_await any_way(c, 0, t, got2, n);
    REQM(!e && got2 == body, "a copy of the stream was read from");
  });
}

SECTION("files", 4000, 100000)
{
  auto body = gen_body(c);
  in_body(c, "file", body);
  gen_parts(c);
  auto way = static_cast<int>(c.below(5));
  c.in("read", way_name(way));
  bool whole = c.chance(1, 3);
  std::size_t off = 0;
  fi::optional<std::uint64_t> size;
  if (!whole) {
    off = c.chance(1, 4) ? 0 : c.below(body.size() + 1);
    if (c.chance(2, 3)) {
      size = c.below(body.size() - off + 1);
    }
    c.in("offset", off);
    c.in("length", size ? std::to_string(*size) : std::string("to the end"));
  }
  auto want = body.substr(off, size ? *size : std::string::npos);
  c.nontrivial(want.size() != body.size() || static_cast<bool>(net::standin::hooks().part));
  drive(c, [&]() -> awaitable<void> {
    auto ex = co_await net::this_coro::executor;
    fi::stream_file f(ex, scratch_file(body));
    auto s = whole ? web::async_readable_file_stream(std::move(f))
                   : web::async_readable_file_stream(std::move(f), off, size);
    std::string got;
    int n = 0;
    std::error_code e;
    if (c.chance(1, 2)) {
      web::any_async_readable_stream a(std::move(s));
      e = co_await any_way(c, way, a, got, n);
    } else {
      e = co_await any_way(c, way, s, got, n);
    }
    REQM(!e, "an error from a file that can be read");
    REQM(got == want, "other bytes than the file's");
  });
}

SECTION("file faults", 3000, 80000)
{
  auto body = gen_body(c);
  in_body(c, "file", body);
  gen_parts(c);
  auto way = static_cast<int>(c.below(5));
  c.in("read", way_name(way));
  auto op = way == 4 && c.chance(1, 2) ? "write" : c.chance(1, 5) ? "seek" : "read";
  auto nth = c.below(4);
  c.in("fails", op);
  c.in("at", nth);
  std::size_t off = std::min<std::size_t>(c.below(3), body.size());
  c.in("offset", off);
  bool failed = false;
  std::size_t moved = 0;
  drive(c, [&]() -> awaitable<void> {
    auto ex = co_await net::this_coro::executor;
    fi::stream_file f(ex, scratch_file(body));
    web::async_readable_file_stream s(std::move(f), off, fi::nullopt);
    std::size_t seen = 0;
    net::standin::hooks().fail = [&](const char* o) -> std::error_code {
      if (!std::strcmp(o, op) && seen++ == nth) {
        failed = true;
        return std::make_error_code(std::errc::io_error);
      }
      return {};
    };
    std::string got;
    int n = 0;
    auto e = co_await any_way(c, way, s, got, n);
    net::standin::hooks().fail = {};
    moved = got.size();
    REQM(static_cast<bool>(e) == failed, failed ? "a failure was not reported" : "a failure was invented");
    if (!failed) {
      REQM(got == body.substr(off), "other bytes than the file's");
    } else {
      REQM(body.substr(off).starts_with(got), "the bytes before the failure are not the file's first");
    }
  });
  c.nontrivial(failed);
  if (failed) {
    c.label("failed");
  }
}
