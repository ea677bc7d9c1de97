// C32: compressed bodies round-trip under every chunking; corrupt ones fail.
#include "web.hpp"
#include <fitoria/web.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <zlib.h>

static pbt::Rule rule(
    "bodies up to 200 kB (random, repetitive, around the internal buffer sizes) "
    "compressed by the code or by the reference libraries with generated levels, "
    "windows, strategies, flushes and gzip header fields, cut into generated "
    "pieces on either side; truncated, extended and corrupted versions; lists of "
    "content codings through the middleware; non-trivial: several pieces, or a "
    "damaged body, or two or more codings");

using namespace web_h;
namespace web = fi::web;
namespace http = fi::http;
namespace mw = fi::web::middleware;

namespace {
enum coding { deflate_, gzip_, brotli_ };
const char* coding_name(int k)
{
  static const char* n[] = { "deflate", "gzip", "brotli" };
  return n[k];
}

constexpr std::size_t longest = 4u << 20;
enum verdict { whole, truncated, damaged, trailing, endless };
struct decoded {
  verdict v;
  std::string out;
};
// What the format's own library says about the bytes, given one by one: before
// it notices an error it has then put out as much as it ever can.
decoded reference(int k, const std::string& in)
{
  decoded d { truncated, {} };
  if (in.empty()) {
    d.v = whole;
    return d;
  }
  std::vector<unsigned char> block(1 << 15);
  if (k == brotli_) {
    auto st = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr);
    std::size_t given = 0, left = 0;
    auto next = reinterpret_cast<const uint8_t*>(in.data());
    for (;;) {
      if (!left && given < in.size()) {
        left = 1;
        ++given;
      }
      std::size_t room = block.size();
      auto out = block.data();
      auto r = BrotliDecoderDecompressStream(st, &left, &next, &room, &out, nullptr);
      d.out.append(reinterpret_cast<char*>(block.data()), block.size() - room);
      if (r == BROTLI_DECODER_RESULT_SUCCESS) {
        d.v = left || given < in.size() ? trailing : whole;
        break;
      }
      if (r == BROTLI_DECODER_RESULT_ERROR) {
        d.v = damaged;
        break;
      }
      if (r == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT && !left && given == in.size()) {
        d.v = truncated;
        break;
      }
      if (d.out.size() > longest) {
        d.v = endless;
        break;
      }
    }
    BrotliDecoderDestroyInstance(st);
    return d;
  }
  z_stream z {};
  if (inflateInit2(&z, k == gzip_ ? 31 : -15) != Z_OK) {
    std::abort();
  }
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = 0;
  std::size_t given = 0;
  for (;;) {
    if (!z.avail_in && given < in.size()) {
      z.avail_in = 1;
      ++given;
    }
    z.next_out = block.data();
    z.avail_out = static_cast<uInt>(block.size());
    auto r = inflate(&z, Z_NO_FLUSH);
    d.out.append(reinterpret_cast<char*>(block.data()), block.size() - z.avail_out);
    if (r == Z_STREAM_END) {
      d.v = z.avail_in || given < in.size() ? trailing : whole;
      break;
    }
    if (r != Z_OK && r != Z_BUF_ERROR) {
      d.v = damaged;
      break;
    }
    if (z.avail_in == 0 && given == in.size() && z.avail_out > 0) {
      d.v = truncated;
      break;
    }
    if (d.out.size() > longest) {
      d.v = endless;
      break;
    }
  }
  inflateEnd(&z);
  return d;
}

// A compressed body made by the format's own library.
std::string compressed(pbt::Case& c, int k, const std::string& body)
{
  std::string r;
  std::vector<unsigned char> block(1 << 15);
  auto pieces = cut(c, body);
  pieces.emplace_back();
  std::string how;
  if (k == brotli_) {
    auto st = BrotliEncoderCreateInstance(nullptr, nullptr, nullptr);
    auto q = c.pick<uint32_t>({ 5, 0, 1, 2, 4, 9, 11 });
    if (body.size() > 5000 && q > 5) {
      q = 3;
    }
    auto w = c.pick<uint32_t>({ 22, 10, 16, 18 });
    BrotliEncoderSetParameter(st, BROTLI_PARAM_QUALITY, q);
    BrotliEncoderSetParameter(st, BROTLI_PARAM_LGWIN, w);
    how = "quality " + std::to_string(q) + " window " + std::to_string(w);
    for (std::size_t i = 0; i < pieces.size(); ++i) {
      bool last = i + 1 == pieces.size();
      auto op = last ? BROTLI_OPERATION_FINISH
          : c.chance(1, 4) ? BROTLI_OPERATION_FLUSH : BROTLI_OPERATION_PROCESS;
      std::size_t left = pieces[i].size();
      auto next = reinterpret_cast<const uint8_t*>(pieces[i].data());
      do {
        std::size_t room = block.size();
        auto out = block.data();
        if (!BrotliEncoderCompressStream(st, op, &left, &next, &room, &out, nullptr)) {
          std::abort();
        }
        r.append(reinterpret_cast<char*>(block.data()), block.size() - room);
      } while (left || BrotliEncoderHasMoreOutput(st)
               || (last && !BrotliEncoderIsFinished(st)));
    }
    BrotliEncoderDestroyInstance(st);
  } else {
    auto level = static_cast<int>(c.pick<int>({ 6, 0, 1, 9, 4 }));
    auto bits = static_cast<int>(c.pick<int>({ 15, 9, 12 }));
    auto mem = static_cast<int>(c.pick<int>({ 8, 1, 9 }));
    auto strategy = static_cast<int>(c.pick<int>({ Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY, Z_RLE, Z_FILTERED }));
    how = "level " + std::to_string(level) + " window " + std::to_string(bits) + " memory "
        + std::to_string(mem) + " strategy " + std::to_string(strategy);
    z_stream z {};
    if (deflateInit2(&z, level, Z_DEFLATED, k == gzip_ ? bits + 16 : -bits, mem, strategy) != Z_OK) {
      std::abort();
    }
    gz_header head {};
    std::string name, comment, extra;
    if (k == gzip_ && c.chance(1, 2)) {
      head.text = static_cast<int>(c.below(2));
      head.time = c.below(1u << 31);
      head.os = static_cast<int>(c.below(256));
      head.hcrc = static_cast<int>(c.below(2));
      name = c.str("ab./", 10);
      comment = c.str("xyz ", 10);
      extra = c.bytes(10);
      auto set = c.below(8);
      head.name = set & 1 ? reinterpret_cast<Bytef*>(name.data()) : nullptr;
      head.comment = set & 2 ? reinterpret_cast<Bytef*>(comment.data()) : nullptr;
      head.extra = set & 4 ? reinterpret_cast<Bytef*>(extra.data()) : nullptr;
      head.extra_len = static_cast<uInt>(extra.size());
      deflateSetHeader(&z, &head);
      how += " with header fields";
    }
    for (std::size_t i = 0; i < pieces.size(); ++i) {
      bool last = i + 1 == pieces.size();
      auto op = last ? Z_FINISH : c.chance(1, 4) ? c.pick<int>({ Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK }) : Z_NO_FLUSH;
      z.next_in = reinterpret_cast<Bytef*>(pieces[i].data());
      z.avail_in = static_cast<uInt>(pieces[i].size());
      for (;;) {
        z.next_out = block.data();
        z.avail_out = static_cast<uInt>(block.size());
        auto e = deflate(&z, op);
        r.append(reinterpret_cast<char*>(block.data()), block.size() - z.avail_out);
        if (e == Z_STREAM_END || (z.avail_out > 0 && !last)) {
          break;
        }
      }
    }
    deflateEnd(&z);
  }
  c.in("compressed with", how);
  return r;
}

using stream = web::any_async_readable_stream;
stream inflating(int k, stream s)
{
  switch (k) {
  case deflate_:
    return mw::detail::async_inflate_stream(std::move(s));
  case gzip_:
    return mw::detail::async_gzip_inflate_stream(std::move(s));
  default:
    return mw::detail::async_brotli_inflate_stream(std::move(s));
  }
}
stream deflating(int k, stream s)
{
  switch (k) {
  case deflate_:
    return mw::detail::async_deflate_stream(std::move(s));
  case gzip_:
    return mw::detail::async_gzip_deflate_stream(std::move(s));
  default:
    return mw::detail::async_brotli_deflate_stream(std::move(s));
  }
}
auto read_all(pbt::Case& c, stream& s, std::string& got, std::size_t limit = std::size_t(-1)) -> awaitable<std::error_code>
{
  for (int n = 0;; ++n) {
    auto d = co_await s.async_read_some();
    if (!d) {
      break;
    }
    if (!*d) {
      co_return d->error();
    }
    got += str(**d);
    REQM(n < 300000, "the stream does not end");
    REQM(got.size() <= limit, "more than was compressed");
  }
  REQM(!(co_await s.async_read_some()), "the stream goes on after its end");
  co_return std::error_code();
}
piece_stream stream_of(std::vector<std::string> pieces, bool suspend = false)
{
  piece_stream p;
  p.s->pieces = std::move(pieces);
  p.s->suspend = suspend;
  return p;
}

// a short body more often: damage is found sooner
std::string small_body(pbt::Case& c)
{
  return c.chance(1, 6) ? gen_body(c) : c.chance(1, 2) ? c.str("ab", 60, 20) : c.bytes(60, 20);
}
}

SECTION("compress", 2500, 60000)
{
  auto k = static_cast<int>(c.below(3));
  c.in("coding", coding_name(k));
  auto body = gen_body(c);
  auto pieces = cut(c, body, true);
  in_pieces(c, pieces);
  c.nontrivial(pieces.size() > 1);
  bool suspend = c.chance(1, 4);
  drive(c, [&]() -> awaitable<void> {
    auto s = deflating(k, stream_of(pieces, suspend));
    std::string packed;
    auto e = co_await read_all(c, s, packed);
    REQM(!e, "compressing fails");
    auto d = reference(k, packed);
    REQM(d.v == whole, "the compressed body is not in the format");
    REQM(d.out == body, "the compressed body decodes to other bytes");
    // and back, cut differently
    auto again = cut(c, packed, true);
    auto t = inflating(k, stream_of(again, suspend));
    std::string got;
    e = co_await read_all(c, t, got);
    REQM(!e, "decompressing fails");
    REQM(got == body, "other bytes come back");
    // and directly through both
    got.clear();
    auto u = inflating(k, deflating(k, stream_of(pieces)));
    e = co_await read_all(c, u, got);
    REQM(!e, "decompressing fails");
    REQM(got == body, "other bytes come back");
  });
}

SECTION("compress, then an error", 800, 20000)
{
  auto k = static_cast<int>(c.below(3));
  c.in("coding", coding_name(k));
  auto body = small_body(c);
  auto pieces = cut(c, body);
  in_pieces(c, pieces);
  bool packing = c.chance(1, 2);
  c.in("compressing", packing ? 1 : 0);
  auto err = std::make_error_code(std::errc::connection_reset);
  c.nontrivial();
  drive(c, [&]() -> awaitable<void> {
    std::string got;
    if (packing) {
      auto p = stream_of(pieces);
      p.s->error = err;
      auto s = deflating(k, std::move(p));
      auto e = co_await read_all(c, s, got);
      REQM(e == err, "the error of the body is lost");
    } else {
      auto packed = compressed(c, k, body);
      auto n = c.below(packed.size() + 1);
      auto p = stream_of(cut(c, packed.substr(0, n)));
      p.s->error = err;
      auto s = inflating(k, std::move(p));
      auto e = co_await read_all(c, s, got);
      REQM(e == err, "the error of the body is lost");
      REQM(body.starts_with(got), "bytes that are not the body's");
    }
  });
}

SECTION("decompress", 2500, 60000)
{
  auto k = static_cast<int>(c.below(3));
  c.in("coding", coding_name(k));
  auto body = gen_body(c);
  in_body(c, "body", body);
  auto packed = compressed(c, k, body);
  auto pieces = cut(c, packed, true);
  in_pieces(c, pieces);
  c.nontrivial(pieces.size() > 1);
  bool suspend = c.chance(1, 4);
  drive(c, [&]() -> awaitable<void> {
    auto s = inflating(k, stream_of(pieces, suspend));
    std::string got;
    auto e = co_await read_all(c, s, got, body.size());
    REQM(!e, "decompressing fails");
    REQM(got == body, "other bytes come back");
  });
}

SECTION("damage", 6000, 200000)
{
  auto k = static_cast<int>(c.below(3));
  c.in("coding", coding_name(k));
  auto body = small_body(c);
  in_body(c, "body", body);
  auto packed = compressed(c, k, body);
  auto bytes = packed;
  auto how = c.weighted({ 3, 1, 3, 2, 1 });
  switch (how) {
  case 0:
    bytes.resize(1 + c.below(packed.size() - 1 + (packed.size() == 1)));
    c.note("cut off");
    break;
  case 1: {
    auto more = c.bytes(10);
    if (k == gzip_ && more.starts_with("\x1f")) {
      more[0] = 0;
    }
    bytes += more;
    c.note("extended");
    break;
  }
  case 2:
    for (auto n = 1 + c.below(3); n > 0; --n) {
      bytes[c.below(bytes.size())] ^= static_cast<char>(1u << c.below(8));
    }
    c.note("bits flipped");
    break;
  case 3:
    bytes = text::mutate(c, bytes, std::string_view("\0\xff\x01", 3));
    c.note("changed");
    break;
  default:
    bytes = c.bytes(30);
    c.note("random");
  }
  auto want = reference(k, bytes);
  if (want.v == endless) {
    c.label("very long output");
    return;
  }
  c.label(want.v == whole ? "whole" : want.v == truncated ? "truncated" : want.v == damaged ? "damaged" : "trailing");
  c.nontrivial(want.v != whole);
  auto pieces = cut(c, bytes, true);
  in_pieces(c, pieces);
  drive(c, [&]() -> awaitable<void> {
    auto s = inflating(k, stream_of(pieces));
    std::string got;
    auto e = co_await read_all(c, s, got, want.out.size());
    if (want.v == whole) {
      REQM(!e, "a whole body is refused");
      REQM(got == want.out, "other bytes than the format says");
    } else {
      REQM(static_cast<bool>(e), want.v == truncated ? "a truncated body is accepted"
           : want.v == damaged ? "a damaged body is accepted" : "data after the end is accepted");
      REQM(want.out.starts_with(got), "bytes that are not the body's");
    }
  });
}

namespace {
struct seen {
  int calls = 0;
  bool coded = false;
  std::error_code error;
  std::string body;
};
// one header value or several, in any case and with optional spaces
std::vector<std::string> header_values(pbt::Case& c, const std::vector<std::string>& codings)
{
  std::vector<std::string> v;
  for (auto& n : codings) {
    auto t = n;
    for (auto& ch : t) {
      if (c.chance(1, 5)) {
        ch = static_cast<char>(std::toupper(static_cast<unsigned char>(ch)));
      }
    }
    auto sp = [&] { return c.chance(3, 4) ? std::string() : std::string(c.pick<const char*>({ " ", "\t", "  " })); };
    if (v.empty() || c.chance(1, 4)) {
      v.push_back(t);
    } else {
      v.back() += sp() + "," + sp() + t;
    }
  }
  return v;
}
}

SECTION("middleware", 2500, 60000)
{
  auto body = small_body(c);
  in_body(c, "body", body);
  std::vector<std::string> codings;
  auto bytes = body;
  for (std::size_t n = c.below(4); n > 0; --n) {
    auto k = c.below(4);
    if (k == 3) {
      codings.push_back("identity");
    } else {
      codings.push_back(coding_name(static_cast<int>(k)));
      bytes = compressed(c, static_cast<int>(k), bytes);
    }
  }
  bool bad = false, unsupported = false;
  auto damage = c.below(10);
  if (damage == 0) {
    unsupported = true;
    codings.insert(codings.begin() + static_cast<std::ptrdiff_t>(c.below(codings.size() + 1)),
                   c.pick<const char*>({ "compress", "zstd", "gzi", "gzip2", "*", "deflate;q=1", "gzip deflate" }));
    c.note("a coding that is not supported");
  } else if (damage < 3 && bytes != body && bytes.size() > 1) {
    // the outermost coding is cut off
    if (c.chance(1, 2)) {
      bytes.resize(1 + c.below(bytes.size() - 1));
    } else {
      // gzip ends with a checksum
      for (std::size_t i = codings.size(); i-- > 0;) {
        if (codings[i] == "identity") {
          continue;
        }
        if (codings[i] == "gzip") {
          bytes[bytes.size() - 1 - c.below(8)] ^= 0x10;
        } else {
          bytes.resize(bytes.size() - 1);
        }
        break;
      }
    }
    bad = true;
    c.note("damaged");
  }
  c.nontrivial(codings.size() > 1 || bad || unsupported);
  auto values = header_values(c, codings);
  for (auto& v : values) {
    c.in("Content-Encoding", v);
  }
  bool chunked = c.chance(1, 2);
  bool whole_body = c.chance(1, 2);
  auto pieces = chunked ? cut(c, bytes) : std::vector<std::string> { bytes };
  in_pieces(c, pieces);
  c.in("chunked", chunked ? 1 : 0);
  c.in("extracted by the handler", whole_body ? 1 : 0);
  gen_parts(c);
  auto parts = net::standin::hooks().part;

  auto got = std::make_shared<seen>();
  int status = 0;
  bool answered = false;
  {
    clean_hooks clean;
    net::io_context ioc;
    net::standin::hooks().part = parts;
    auto server
        = web::http_server::builder(ioc)
              .set_request_body_limit(fi::nullopt)
              .serve(web::route::post<"/string">(
                         [got](const http::header_map& h, std::string b) -> awaitable<web::response> {
                           ++got->calls;
                           got->coded = h.contains(http::field::content_encoding);
                           got->body = b;
                           co_return web::response::ok().build();
                         })
                         .use(mw::decompress()))
              .serve(web::route::post<"/request">([got](web::request& r) -> awaitable<web::response> {
                       ++got->calls;
                       got->coded = r.headers().contains(http::field::content_encoding);
                       auto b = co_await web::async_read_until_eof<std::string>(r.body());
                       if (b) {
                         got->body = *b;
                       } else {
                         got->error = b.error();
                       }
                       co_return web::response::ok().build();
                     }).use(mw::decompress()))
              .build();
    auto b = web::test_request::post();
    for (auto& v : values) {
      b.insert_header(http::field::content_encoding, v);
    }
    auto req = chunked ? b.set_stream_body(stream_of(pieces))
                       : b.set_body(std::string_view(bytes));
    server.serve_request(whole_body ? "/string" : "/request", std::move(req),
                         [&](web::test_response r) -> awaitable<void> {
                           answered = true;
                           status = static_cast<int>(r.status().value());
                           co_return;
                         });
    ioc.scheduler::run(true, 5'000'000);
  }
  REQM(answered, "no response");
  if (unsupported) {
    REQ_EQ(status, 400);
    REQ_EQ(got->calls, 0);
    return;
  }
  REQM(got->calls <= 1, "the handler ran twice");
  if (bad) {
    if (whole_body) {
      REQM(status >= 400, "a damaged body is accepted");
      REQ_EQ(got->calls, 0);
    } else {
      REQM(static_cast<bool>(got->error), "a damaged body is accepted");
    }
    return;
  }
  REQ_EQ(status, 200);
  REQ_EQ(got->calls, 1);
  REQM(!got->error, "the body cannot be read");
  REQM(got->body == body, "the handler sees other bytes");
  REQM(!got->coded, "the handler sees the coding of a body that is not coded any more");
}
