// C01: base64 encoding is exact and loses nothing.
#include "b64_ref.hpp"
#include "pbt.hpp"
#include <fitoria/encoding/base64.hpp>

#include <cstddef>
#include <iterator>
#include <list>
#include <vector>

using namespace fitoria::encoding::base64;

static pbt::Rule rule(
    "random byte strings (uniform, ascii, runs, boundary bytes) x alphabet x "
    "padding; non-trivial: a message whose length is not a multiple of 3 or "
    "that contains a byte >= 0x80, or a history with at least two messages");

namespace {
std::string gen_bytes(pbt::Case& c, std::size_t max)
{
  switch (c.weighted({ 4, 2, 1, 1 })) {
  case 0:
    return c.bytes(max, 10);
  case 1:
    return c.ascii(max, 10);
  case 2: {
    auto ch = static_cast<char>(c.below(256));
    return std::string(c.below(max) + 1, ch);
  }
  default: {
    // every length class with bytes that set all six-bit groups
    std::string s;
    auto n = c.below(max) + 1;
    while (s.size() < n) {
      s += static_cast<char>(
          c.pick({ 0x00, 0xff, 0xfb, 0xef, 0xbe, 0x3f, 0x80, 0x7f }));
    }
    return s;
  }
  }
}

template <typename Enc, typename Dec, typename Byte>
void one(pbt::Case& c, const std::string& msg, bool url, bool pad)
{
  std::vector<Byte> in;
  for (char ch : msg) {
    in.push_back(static_cast<Byte>(static_cast<unsigned char>(ch)));
  }
  auto want = ref::b64_encode(msg, url, pad);
  Enc enc(pad ? padding::yes : padding::no);
  std::string got;
  enc.encode(in.begin(), in.end(), std::back_inserter(got));
  REQ_EQ(got, want);
  // through an output buffer of exactly the right size
  std::vector<char> fixed(want.size());
  Enc enc2(pad ? padding::yes : padding::no);
  auto end = enc2.encode(in.begin(), in.end(), fixed.data());
  REQ(end == fixed.data() + want.size());
  REQ_EQ(std::string(fixed.begin(), fixed.end()), want);
  std::string back;
  Dec().decode(got.begin(), got.end(), std::back_inserter(back));
  REQ_EQ(back, msg);
  // bytes of the decoder's input may have any one-byte type
  std::vector<std::uint8_t> u(got.begin(), got.end());
  std::vector<std::uint8_t> ub;
  Dec().decode(u.begin(), u.end(), std::back_inserter(ub));
  REQ(std::string(ub.begin(), ub.end()) == msg);
}

template <typename Enc, typename Dec>
void by_type(pbt::Case& c, const std::string& msg, bool url, bool pad, u_int t)
{
  switch (t) {
  case 0:
    return one<Enc, Dec, char>(c, msg, url, pad);
  case 1:
    return one<Enc, Dec, unsigned char>(c, msg, url, pad);
  case 2:
    return one<Enc, Dec, signed char>(c, msg, url, pad);
  default:
    return one<Enc, Dec, std::byte>(c, msg, url, pad);
  }
}

// One encoder, many messages, each fed in arbitrary pieces.
template <typename Enc, typename Dec>
void history(pbt::Case& c, bool url, bool pad)
{
  Enc enc = pad && c.chance(1, 2) ? Enc()
                                  : Enc(pad ? padding::yes : padding::no);
  std::size_t msgs = 0;
  while (c.more(msgs, 8, 3)) {
    ++msgs;
    std::string msg, got;
    std::size_t pieces = 0;
    while (c.more(pieces, 12, 4)) {
      ++pieces;
      if (c.chance(1, 2)) {
        auto b = static_cast<char>(c.below(256));
        c.op("byte", static_cast<unsigned char>(b));
        switch (c.below(3)) {
        case 0:
          enc.encode_next(b, std::back_inserter(got));
          break;
        case 1:
          enc.encode_next(static_cast<unsigned char>(b),
                          std::back_inserter(got));
          break;
        default:
          enc.encode_next(static_cast<std::byte>(b), std::back_inserter(got));
        }
        msg += b;
      } else {
        auto s = c.bytes(12, 4);
        c.op("piece", s);
        if (c.chance(1, 3)) { // forward iterators only
          std::list<char> l(s.begin(), s.end());
          enc.encode_next(l.begin(), l.end(), std::back_inserter(got));
        } else {
          enc.encode_next(s.begin(), s.end(), std::back_inserter(got));
        }
        msg += s;
      }
      // nothing emitted may ever have to be taken back
      auto full = ref::b64_encode(msg, url, false);
      REQM(got.size() <= full.size()
               && full.compare(0, got.size(), got) == 0,
           "emitted text " + pbt::quote(got) + " is no prefix of "
               + pbt::quote(full));
    }
    if (c.chance(1, 3)) {
      auto s = c.bytes(8, 3);
      c.op("encode", s);
      enc.encode(s.begin(), s.end(), std::back_inserter(got));
      msg += s;
    } else {
      c.op("rest");
      enc.encode_rest(std::back_inserter(got));
      if (c.chance(1, 4)) { // flushing twice adds nothing
        c.op("rest again");
        enc.encode_rest(std::back_inserter(got));
      }
    }
    REQ_EQ(got, ref::b64_encode(msg, url, pad));
    std::string back;
    Dec().decode(got.begin(), got.end(), std::back_inserter(back));
    REQ_EQ(back, msg);
  }
  c.nontrivial(msgs >= 2);
}
}

SECTION("whole message", 500000, 6000000)
{
  bool url = c.chance(1, 2), pad = c.chance(1, 2);
  auto t = static_cast<u_int>(c.below(4));
  auto msg = gen_bytes(c, 60);
  c.in("url", url);
  c.in("pad", pad);
  c.in("type", t);
  c.in("msg", msg);
  bool high = false;
  for (unsigned char ch : msg) {
    high = high || ch >= 0x80;
  }
  c.nontrivial(msg.size() % 3 != 0 || high);
  c.label(msg.size() % 3 == 0       ? "len%3=0"
              : msg.size() % 3 == 1 ? "len%3=1"
                                    : "len%3=2");
  if (high) {
    c.label("byte>=0x80");
  }
  if (url) {
    by_type<url_encoder, url_decoder>(c, msg, url, pad, t);
  } else {
    by_type<standard_encoder, standard_decoder>(c, msg, url, pad, t);
  }
}

// all one- and two-byte messages, and a slice of the three-byte ones
SECTION("short messages, enumerated", 400000, 2000000)
{
  bool url = c.chance(1, 2), pad = c.chance(1, 2);
  std::string msg;
  auto n = c.below(3) + 1;
  for (std::size_t i = 0; i < n; ++i) {
    msg += static_cast<char>(c.below(256));
  }
  c.in("url", url);
  c.in("pad", pad);
  c.in("msg", msg);
  c.nontrivial();
  if (url) {
    by_type<url_encoder, url_decoder>(c, msg, url, pad, 0);
  } else {
    by_type<standard_encoder, standard_decoder>(c, msg, url, pad, 1);
  }
}

SECTION("long messages", 4000, 40000)
{
  bool url = c.chance(1, 2), pad = c.chance(1, 2);
  std::string msg(c.below(3000), 0);
  for (auto& ch : msg) {
    ch = static_cast<char>(c.below(256));
  }
  c.in("url", url);
  c.in("pad", pad);
  c.in("msg", msg);
  c.nontrivial();
  if (url) {
    by_type<url_encoder, url_decoder>(c, msg, url, pad, 3);
  } else {
    by_type<standard_encoder, standard_decoder>(c, msg, url, pad, 2);
  }
}

SECTION("reused encoder fed in pieces", 200000, 3000000)
{
  bool url = c.chance(1, 2), pad = c.chance(1, 2);
  c.in("url", url);
  c.in("pad", pad);
  if (url) {
    history<url_encoder, url_decoder>(c, url, pad);
  } else {
    history<standard_encoder, standard_decoder>(c, url, pad);
  }
}
