// C02: base64 decoding accepts only well-formed text and never misreads.
#include "b64_ref.hpp"
#include "pbt.hpp"
#include <fitoria/encoding/base64.hpp>

#include <cstddef>
#include <iterator>
#include <stdexcept>
#include <vector>

using namespace fitoria::encoding::base64;

static pbt::Rule rule(
    "valid base64 texts with 0-3 random edits (insert/replace/delete a byte of "
    "any value, move padding, truncate), texts over alphabet+'=', and raw "
    "bytes; non-trivial: a text that contains padding, a character outside the "
    "alphabet, or has length 2 or 3 modulo 4");

namespace {
std::string gen(pbt::Case& c, bool url)
{
  std::string_view alpha = ref::b64_alphabet(url);
  std::string s;
  switch (c.weighted({ 6, 3, 1 })) {
  case 0: {
    s = ref::b64_encode(c.bytes(24, 6), url, c.chance(3, 4));
    auto edits = c.below(4);
    for (std::size_t i = 0; i < edits; ++i) {
      auto pos = c.below(s.size() + 1);
      char ch;
      switch (c.weighted({ 3, 3, 2, 2, 1, 1 })) {
      case 0:
        ch = static_cast<char>(c.below(256));
        break;
      case 1:
        ch = '=';
        break;
      case 2:
        ch = alpha[c.below(64)];
        break;
      case 3:
        ch = c.pick({ '+', '/', '-', '_' });
        break;
      case 4:
        ch = c.pick({ '\n', ' ', '\0', '@', '[', '`', '{', ':', '.', ',' });
        break;
      default:
        ch = static_cast<char>(0x80 + c.below(128));
        break;
      }
      switch (c.below(3)) {
      case 0:
        s.insert(pos, 1, ch);
        break;
      case 1:
        if (pos < s.size()) {
          s[pos] = ch;
        }
        break;
      default:
        if (pos < s.size()) {
          s.erase(pos, 1);
        }
      }
    }
    break;
  }
  case 1: {
    std::string al(alpha);
    al += "====+/-_";
    s = c.str(al, 14, 6);
    break;
  }
  default:
    s = c.bytes(10, 4);
  }
  return s;
}

template <typename Dec, typename Byte>
void one(pbt::Case& c, const std::string& text, bool url)
{
  auto want = ref::b64_decode(text, url);
  c.label(want ? "accepted" : "rejected");
  std::vector<Byte> in;
  for (char ch : text) {
    in.push_back(static_cast<Byte>(static_cast<unsigned char>(ch)));
  }
  // at once
  std::string got;
  bool ok = true;
  Dec whole;
  try {
    whole.decode(in.begin(), in.end(), std::back_inserter(got));
  } catch (const std::invalid_argument&) {
    ok = false;
  }
  REQM(ok == want.has_value(),
       want ? "well-formed text refused" : "malformed text accepted as "
               + pbt::quote(got));
  if (ok) {
    REQ_EQ(got, *want);
  }
  // character at a time: the verdict, the bytes, and sticky errors
  Dec dec;
  std::string out;
  bool seen_error = false;
  for (std::size_t i = 0; i < in.size(); ++i) {
    dec.decode_next(in[i], std::back_inserter(out));
    if (seen_error) {
      REQM(dec.is_error(), "error state was left again");
    }
    seen_error = seen_error || dec.is_error();
    auto prefix = ref::b64_decode(std::string_view(text).substr(0, i + 1), url);
    REQM(!(dec.is_error() && dec.is_done()), "both failed and done");
    if (prefix) {
      REQM(!dec.is_error(), "well-formed prefix refused");
      REQM(dec.is_done(), "well-formed prefix not done");
      REQ_EQ(out, *prefix);
    } else {
      REQM(!dec.is_done(), "malformed or incomplete prefix reported done");
    }
  }
  if (in.empty()) {
    REQ(dec.is_done() && !dec.is_error());
  } else {
    REQ_EQ(dec.is_done(), want.has_value());
  }
  if (seen_error) { // data after an error adds nothing
    auto before = out;
    std::string more = "QUJD";
    dec.decode_next(more.begin(), more.end(), std::back_inserter(out));
    REQ(dec.is_error());
    REQ_EQ(out, before);
  }
  // in two pieces
  auto cut = c.below(in.size() + 1);
  Dec dec2;
  std::string out2;
  dec2.decode_next(in.begin(),
                   in.begin() + static_cast<std::ptrdiff_t>(cut),
                   std::back_inserter(out2));
  dec2.decode_next(in.begin() + static_cast<std::ptrdiff_t>(cut),
                   in.end(),
                   std::back_inserter(out2));
  REQ_EQ(dec2.is_done(), want.has_value());
  REQ_EQ(dec2.is_error(), dec.is_error());
  if (want) {
    REQ_EQ(out2, *want);
  }
  // decode() on a used decoder does not depend on what it has seen
  std::string got3;
  bool ok3 = true;
  try {
    dec2.decode(in.begin(), in.end(), std::back_inserter(got3));
  } catch (const std::invalid_argument&) {
    ok3 = false;
  }
  REQ_EQ(ok3, want.has_value());
  if (want) {
    REQ_EQ(got3, *want);
  }
}

template <typename Dec>
void by_type(pbt::Case& c, const std::string& s, bool url, std::size_t t)
{
  switch (t) {
  case 0:
    return one<Dec, char>(c, s, url);
  case 1:
    return one<Dec, unsigned char>(c, s, url);
  case 2:
    return one<Dec, signed char>(c, s, url);
  default:
    return one<Dec, std::byte>(c, s, url);
  }
}

void run_text(pbt::Case& c, const std::string& s, bool url, std::size_t t)
{
  c.in("url", url);
  c.in("type", t);
  c.in("text", s);
  bool odd = s.size() % 4 >= 2;
  for (char ch : s) {
    odd = odd || ch == '='
        || std::string_view(ref::b64_alphabet(url)).find(ch)
            == std::string_view::npos;
    if (static_cast<unsigned char>(ch) >= 0x80) {
      c.label("byte>=0x80");
    }
  }
  c.nontrivial(odd);
  if (url) {
    by_type<url_decoder>(c, s, url, t);
  } else {
    by_type<standard_decoder>(c, s, url, t);
  }
}
}

SECTION("arbitrary text", 500000, 6000000)
{
  bool url = c.chance(1, 2);
  auto t = c.below(4);
  run_text(c, gen(c, url), url, t);
}

// every single byte value at every position of a quad, with and without padding
SECTION("one odd byte per quad", 200000, 1000000)
{
  bool url = c.chance(1, 2);
  auto t = c.below(4);
  std::string s = c.pick({ "QUJD", "QUI=", "QQ==", "QUJDREVG", "QQ", "QUI" });
  auto pos = c.below(s.size());
  s[pos] = static_cast<char>(c.below(256));
  run_text(c, s, url, t);
}

SECTION("long text", 2000, 20000)
{
  bool url = c.chance(1, 2);
  std::string msg(c.below(400), 0);
  for (auto& ch : msg) {
    ch = static_cast<char>(c.below(256));
  }
  auto s = ref::b64_encode(msg, url, c.chance(1, 2));
  if (!s.empty() && c.chance(2, 3)) {
    s[c.below(s.size())] = static_cast<char>(c.below(256));
  }
  run_text(c, s, url, c.below(4));
}
