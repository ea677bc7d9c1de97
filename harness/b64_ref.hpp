#pragma once
#include <optional>
#include <string>
#include <string_view>
// Independent RFC 4648 reference, written over bit strings.
namespace ref {
inline const char* b64_alphabet(bool url)
{
  return url
      ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
      : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
}
inline std::string b64_encode(std::string_view in, bool url, bool pad)
{
  std::string bits;
  for (unsigned char ch : in) {
    for (int i = 7; i >= 0; --i) {
      bits += ((ch >> i) & 1) ? '1' : '0';
    }
  }
  while (bits.size() % 6 != 0) {
    bits += '0';
  }
  std::string out;
  for (std::size_t i = 0; i < bits.size(); i += 6) {
    unsigned v = 0;
    for (std::size_t j = 0; j < 6; ++j) {
      v = v * 2 + (bits[i + j] == '1');
    }
    out += b64_alphabet(url)[v];
  }
  if (pad) {
    while (out.size() % 4 != 0) {
      out += '=';
    }
  }
  return out;
}
// nullopt: not base64 text of this alphabet
inline std::optional<std::string> b64_decode(std::string_view in, bool url)
{
  std::string_view alpha = b64_alphabet(url);
  std::size_t n = 0;
  while (n < in.size() && alpha.find(in[n]) != std::string_view::npos) {
    ++n;
  }
  auto pads = in.substr(n);
  if (n % 4 == 1) {
    return std::nullopt;
  }
  std::size_t full = (4 - n % 4) % 4;
  if (!(pads.empty() || pads == std::string(full, '='))) {
    return std::nullopt;
  }
  std::string bits, out;
  for (std::size_t i = 0; i < n; ++i) {
    auto v = alpha.find(in[i]);
    for (int b = 5; b >= 0; --b) {
      bits += ((v >> b) & 1) ? '1' : '0';
    }
  }
  for (std::size_t i = 0; i + 8 <= bits.size(); i += 8) {
    unsigned v = 0;
    for (std::size_t j = 0; j < 8; ++j) {
      v = v * 2 + (bits[i + j] == '1');
    }
    out += static_cast<char>(v);
  }
  return out;
}
}
