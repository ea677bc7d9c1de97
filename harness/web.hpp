// Runs coroutines of the code under test on the stand-in scheduler.
#pragma once
#include "text.hpp"
#include <fitoria/core/bytes.hpp>
#include <fitoria/core/expected.hpp>
#include <fitoria/core/net.hpp>
#include <fitoria/core/optional.hpp>
#include <sys/mman.h>
#include <unistd.h>

namespace web_h {
namespace fi = fitoria;
namespace net = fi::net;
template <typename T>
using awaitable = fi::awaitable<T>;
using piece = fi::optional<fi::expected<fi::bytes, std::error_code>>;

// How many bytes each read or write of the case moves.
inline void gen_parts(pbt::Case& c)
{
  auto& h = net::standin::hooks();
  h = {};
  auto kind = c.weighted({ 2, 1, 3 });
  if (kind == 0) {
    return;
  }
  auto sizes = std::make_shared<std::vector<std::size_t>>();
  if (kind == 1) {
    sizes->push_back(1 + c.below(3));
  } else {
    for (std::size_t i = 0; i < 1 || c.more(i, 8, 4); ++i) {
      sizes->push_back(c.chance(3, 4) ? 1 + c.below(12)
                                      : c.pick<std::size_t>({ 64, 1000, 4096, 16384, 65535, 65536, 70000 }));
    }
  }
  std::string s;
  for (auto n : *sizes) {
    s += std::to_string(n) + " ";
  }
  c.in("bytes per operation", s);
  auto at = std::make_shared<std::size_t>(0);
  // one byte at a time is kept for transfers that stay short
  h.part = [sizes, at](std::size_t n) {
    auto k = (*sizes)[(*at)++ % sizes->size()];
    return n > 20000 ? std::max<std::size_t>(k, n / 16) : k;
  };
}
struct clean_hooks {
  ~clean_hooks()
  {
    net::standin::hooks() = {};
  }
};

// Runs f() to its end; how ready tasks are ordered is part of the case.
template <typename F>
void drive(pbt::Case& c, F&& f, bool shuffle = false)
{
  clean_hooks clean;
  net::io_context ioc;
  if (shuffle) {
    auto seed = std::make_shared<pbt::u64>(c.below(1 << 16));
    if (*seed) {
      ioc.pick = [seed](std::size_t n) {
        *seed = pbt::mix(*seed);
        return static_cast<std::size_t>(*seed % n);
      };
    }
  }
  bool ended = false;
  std::exception_ptr error;
  net::co_spawn(ioc, std::forward<F>(f), [&](std::exception_ptr e) {
    ended = true;
    error = e;
  });
  ioc.scheduler::run(true, 5'000'000);
  if (error) {
    std::rethrow_exception(error);
  }
  REQM(ended, "the operation never completes");
}

inline std::string str(const fi::bytes& b)
{
  return std::string(reinterpret_cast<const char*>(b.data()), b.size());
}
inline fi::bytes to_bytes(std::string_view s)
{
  auto p = reinterpret_cast<const std::byte*>(s.data());
  return fi::bytes(p, p + s.size());
}

// bytes of a generated length, mostly short, sometimes around the sizes the
// code works in
inline std::string gen_body(pbt::Case& c)
{
  switch (c.weighted({ 12, 4, 2 })) {
  case 0:
    return c.bytes(40);
  case 1: {
    // repetitive
    auto unit = c.bytes(5);
    std::string s;
    for (std::size_t n = c.below(400); n > 0; --n) {
      s += unit;
    }
    return s;
  }
  default: {
    std::size_t n = c.pick<std::size_t>({ 1024, 4096, 16384, 65535, 65536, 65537, 131072, 200000 })
        + c.below(5) - c.below(3);
    // random bytes or text from a seed
    auto seed = c.raw();
    bool flat = c.chance(1, 2);
    std::string s(n, '\0');
    for (auto& ch : s) {
      seed = seed * 6364136223846793005ull + 1442695040888963407ull;
      ch = static_cast<char>(flat ? "ab"[seed >> 63] : seed >> 56);
    }
    return s;
  }
  }
}
inline void in_body(pbt::Case& c, std::string_view name, const std::string& s)
{
  if (s.size() < 300) {
    c.in(name, s);
  } else {
    c.in(name, std::to_string(s.size()) + " bytes, hash "
             + std::to_string(std::hash<std::string> {}(s)) + ", beginning " + s.substr(0, 16));
  }
}

// A body that arrives in given pieces, perhaps ending with an error.
class piece_stream {
  struct shared {
    std::vector<std::string> pieces;
    std::size_t at = 0, reads = 0, after_end = 0;
    std::error_code error;
    bool suspend = false;
  };

public:
  std::shared_ptr<shared> s = std::make_shared<shared>();
  using is_async_readable_stream = void;

  piece_stream() = default;
  piece_stream(piece_stream&&) = default;
  piece_stream& operator=(piece_stream&&) = default;

  auto async_read_some() -> awaitable<piece>
  {
    auto st = s;
    ++st->reads;
    if (st->suspend) {
      net::basic_waitable_timer<std::chrono::steady_clock, net::wait_traits<std::chrono::steady_clock>, fi::executor_type> t(
          co_await net::this_coro::executor);
      t.expires_after(std::chrono::milliseconds(1));
      co_await t.async_wait(fi::use_awaitable);
    }
    if (st->at < st->pieces.size()) {
      co_return to_bytes(st->pieces[st->at++]);
    }
    if (st->error) {
      co_return fi::unexpected { st->error };
    }
    ++st->after_end;
    co_return fi::nullopt;
  }
};
// cuts text into pieces (never empty ones unless asked for)
inline std::vector<std::string> cut(pbt::Case& c, const std::string& s, bool empties = false)
{
  std::vector<std::string> v;
  std::size_t i = 0;
  while (i < s.size()) {
    if (empties && c.chance(1, 8)) {
      v.emplace_back();
    }
    std::size_t n;
    switch (c.weighted({ 3, 3, 1 })) {
    case 0:
      n = s.size() - i;
      break;
    case 1:
      n = 1 + c.below(std::min<std::size_t>(s.size() - i, 8));
      break;
    default:
      n = 1 + c.below(s.size() - i);
    }
    if (v.size() > 60) {
      n = s.size() - i;
    }
    v.push_back(s.substr(i, n));
    i += n;
  }
  if (empties && c.chance(1, 8)) {
    v.emplace_back();
  }
  return v;
}
inline void in_pieces(pbt::Case& c, const std::vector<std::string>& v)
{
  std::string sizes, all;
  for (auto& p : v) {
    sizes += std::to_string(p.size()) + " ";
    all += p;
  }
  c.in("piece sizes", sizes);
  in_body(c, "bytes", all);
}

// an anonymous file with the given content
inline int scratch_file(const std::string& content)
{
  int fd = ::memfd_create("pbt", MFD_CLOEXEC);
  std::size_t at = 0;
  while (at < content.size()) {
    auto n = ::write(fd, content.data() + at, content.size() - at);
    if (n <= 0) {
      std::abort();
    }
    at += static_cast<std::size_t>(n);
  }
  ::lseek(fd, 0, SEEK_SET);
  return fd;
}
inline std::string content_of(int fd)
{
  auto end = ::lseek(fd, 0, SEEK_END);
  std::string s(static_cast<std::size_t>(end), '\0');
  if (::pread(fd, s.data(), s.size(), 0) != end) {
    std::abort();
  }
  return s;
}
}
