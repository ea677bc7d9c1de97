// C24: framework error codes are distinguishable and round-trip.
#include "pbt.hpp"
#include <fitoria/web/error.hpp>
#include <fitoria/web/middleware/detail/brotli_error.hpp>
#include <limits>
#include <thread>

static pbt::Rule rule(
    "every enumerator of both categories paired with every other and with codes "
    "of other categories, and integers (all small ones, the extremes, random) in "
    "both categories; non-trivial: all");

namespace fi = fitoria;
using fi::web::error;
using brotli = fi::web::middleware::detail::brotli_error;
namespace {
struct row {
  std::error_code code;
  int number;
  int which; // category
};
std::vector<row> rows()
{
  std::vector<row> v;
  for (auto e : { error::route_already_exists, error::route_not_exists,
                  error::unexpected_content_type,
                  error::extractor_field_name_not_found }) {
    v.push_back({ e, static_cast<int>(e), 0 });
  }
  for (auto e : { brotli::error, brotli::need_more_input, brotli::need_more_output,
                  brotli::init, brotli::unknown }) {
    v.push_back({ e, static_cast<int>(e), 1 });
  }
  return v;
}
const char* names[] = { "fitoria.web.error", "fitoria.web.brotli_error" };
}

SECTION("defined errors", 20000, 200000)
{
  auto all = rows();
  auto i = c.below(all.size()), j = c.below(all.size());
  auto& a = all[i];
  auto& b = all[j];
  c.in("error", i);
  c.in("other", j);
  c.nontrivial();
  REQM(static_cast<bool>(a.code), "an error that converts to success");
  REQ_EQ(a.code.value(), a.number);
  REQ_EQ(std::string(a.code.category().name()), std::string(names[a.which]));
  REQ(!a.code.message().empty());
  REQ_EQ(a.code == b.code, i == j);
  REQ_EQ(a.code != b.code, i != j);
  REQ_EQ(a.code.message() == b.code.message(), i == j);
  REQ_EQ(a.code.category() == b.code.category(), a.which == b.which);
  // converts back
  if (a.which == 0) {
    REQ(a.code == make_error_code(static_cast<error>(a.code.value())));
    REQ(a.code == static_cast<error>(a.number));
    std::error_code x = static_cast<error>(a.number);
    REQ(x == a.code && &x.category() == &a.code.category());
  } else {
    REQ(a.code == make_error_code(static_cast<brotli>(a.code.value())));
    REQ(a.code == static_cast<brotli>(a.number));
  }
  // differs from codes of other categories with the same number
  REQ(a.code != std::error_code(a.number, std::generic_category()));
  REQ(a.code != std::error_code(a.number, std::system_category()));
  REQ(a.code != std::error_code());
  // survives being thrown
  try {
    throw std::system_error(a.code);
  } catch (const std::system_error& e) {
    REQ(e.code() == a.code);
  }
}

SECTION("any number", 150000, 2000000)
{
  auto all = rows();
  int n;
  switch (c.below(4)) {
  case 0:
    n = static_cast<int>(c.range(-20, 130));
    break;
  case 1:
    n = c.pick({ std::numeric_limits<int>::min(), std::numeric_limits<int>::max(),
                 std::numeric_limits<int>::min() + 1, -1, 256, 257, 65536 });
    break;
  case 2:
    n = all[c.below(all.size())].number
        + static_cast<int>(c.pick({ 1, -1, 256, 65536, -256, 1 << 24, 1 << 30 }));
    break;
  default:
    n = static_cast<int>(c.raw());
  }
  int which = static_cast<int>(c.below(2));
  c.in("number", n);
  c.in("category", which);
  c.nontrivial();
  std::error_code ec = which == 0 ? make_error_code(static_cast<error>(n))
                                  : make_error_code(static_cast<brotli>(n));
  REQ_EQ(ec.value(), n);
  REQ_EQ(std::string(ec.category().name()), std::string(names[which]));
  auto msg = ec.message();
  for (auto& r : all) {
    if (r.which == which) {
      REQ_EQ(ec == r.code, n == r.number);
      REQ_EQ(msg == r.code.message(), n == r.number);
    } else {
      REQ(ec != r.code);
    }
  }
}

SECTION("made on another thread", 600, 6000)
{
  auto all = rows();
  auto i = c.below(all.size());
  c.in("error", i);
  c.nontrivial();
  std::vector<row> other;
  std::thread([&] { other = rows(); }).join();
  for (std::size_t j = 0; j < all.size(); ++j) {
    REQ_EQ(all[i].code == other[j].code, i == j);
  }
  REQ_EQ(std::string(other[i].code.category().name()), std::string(names[other[i].which]));
  REQ_EQ(other[i].code.message(), all[i].code.message());
  REQ(other[i].code.category() == all[i].code.category());
}
