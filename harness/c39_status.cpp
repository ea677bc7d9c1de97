// C39: status codes.
#include "pbt.hpp"
#include <fitoria/http/status_code.hpp>
#include <limits>

static pbt::Rule rule(
    "integers (every one from -50 to 1100, the extremes, random) as status "
    "codes, alone and in pairs, and format specifications; non-trivial: the "
    "number is not one of the registered codes or lies at the edge of a class");

namespace fi = fitoria;
using fi::http::status;
using fi::http::status_class;
using fi::http::status_code;
namespace {
int number(pbt::Case& c)
{
  switch (c.weighted({ 6, 2, 2, 1, 1 })) {
  case 0:
    return static_cast<int>(c.range(100, 599));
  case 1:
    return static_cast<int>(c.range(1, 6) * 100 + c.range(-2, 2));
  case 2:
    return static_cast<int>(c.range(-50, 1100));
  case 3:
    return static_cast<int>(c.pick({ 0,
                                     1,
                                     -1,
                                     std::numeric_limits<int>::max(),
                                     std::numeric_limits<int>::min(),
                                     65536 + 200,
                                     256 + 200 }));
  default:
    return static_cast<int>(static_cast<std::uint32_t>(c.raw()));
  }
}
status_class class_of(int n)
{
  switch (n >= 100 && n < 600 ? n / 100 : 0) {
  case 1:
    return status_class::informational;
  case 2:
    return status_class::successful;
  case 3:
    return status_class::redirection;
  case 4:
    return status_class::client_error;
  case 5:
    return status_class::server_error;
  default:
    return status_class::unknown;
  }
}
}

SECTION("numbers", 60000, 2000000)
{
  auto n = number(c);
  auto m = c.chance(1, 3) ? n : number(c);
  c.in("number", n);
  c.in("other", m);
  c.nontrivial(n < 100 || n > 599 || n % 100 > 30 || n % 100 == 0
               || n % 100 == 99);
  status_code a(n);
  status_code b(static_cast<status>(n));
  status_code x(m);
  for (auto* p : { &a, &b }) {
    REQ_EQ(static_cast<int>(p->value()), n);
    REQ_EQ(static_cast<int>(p->category()), static_cast<int>(class_of(n)));
  }
  REQ(a == b && !(a != b));
  REQ_EQ(a == x, n == m);
  REQ_EQ(a != x, n != m);
  REQ_EQ(x == a, n == m);
  x = a;
  REQ(x == b);
  // a status converts where a code is expected
  auto take = [](status_code s) { return static_cast<int>(s.value()); };
  REQ_EQ(take(n), n);
  REQ_EQ(take(static_cast<status>(n)), n);
  REQ(a == static_cast<status>(n));
  // prints as its number
  if (n >= 0) {
    REQ_EQ(fmt::format("{}", a), std::to_string(n));
    auto w = c.range(0, 12);
    REQ_EQ(fmt::format("{:>{}}|{:x}", a, w, a), fmt::format("{:>{}}|{:x}", n, w, n));
  }
}

SECTION("registered codes", 2000, 20000)
{
  static const std::pair<status, int> table[] = {
    { status::continue_, 100 }, { status::switching_protocols, 101 },
    { status::processing, 102 }, { status::ok, 200 }, { status::created, 201 },
    { status::accepted, 202 }, { status::non_authoritative_information, 203 },
    { status::no_content, 204 }, { status::reset_content, 205 },
    { status::partial_content, 206 }, { status::multi_status, 207 },
    { status::already_reported, 208 }, { status::im_used, 226 },
    { status::multiple_choices, 300 }, { status::moved_permanently, 301 },
    { status::found, 302 }, { status::see_other, 303 },
    { status::not_modified, 304 }, { status::use_proxy, 305 },
    { status::temporary_redirect, 307 }, { status::permanent_redirect, 308 },
    { status::bad_request, 400 }, { status::unauthorized, 401 },
    { status::payment_required, 402 }, { status::forbidden, 403 },
    { status::not_found, 404 }, { status::method_not_allowed, 405 },
    { status::not_acceptable, 406 },
    { status::proxy_authentication_required, 407 },
    { status::request_timeout, 408 }, { status::conflict, 409 },
    { status::gone, 410 }, { status::length_required, 411 },
    { status::precondition_failed, 412 }, { status::payload_too_large, 413 },
    { status::uri_too_long, 414 }, { status::unsupported_media_type, 415 },
    { status::range_not_satisfiable, 416 }, { status::expectation_failed, 417 },
    { status::misdirected_request, 421 }, { status::unprocessable_entity, 422 },
    { status::locked, 423 }, { status::failed_dependency, 424 },
    { status::upgrade_required, 426 }, { status::precondition_required, 428 },
    { status::too_many_requests, 429 },
    { status::request_header_fields_too_large, 431 },
    { status::unavailable_for_legal_reasons, 451 },
    { status::internal_server_error, 500 }, { status::not_implemented, 501 },
    { status::bad_gateway, 502 }, { status::service_unavailable, 503 },
    { status::gateway_timeout, 504 }, { status::http_version_not_supported, 505 },
    { status::variant_also_negotiates, 506 }, { status::insufficient_storage, 507 },
    { status::loop_detected, 508 }, { status::not_extended, 510 },
    { status::network_authentication_required, 511 },
  };
  auto& [s, n] = table[c.below(std::size(table))];
  c.in("code", n);
  c.nontrivial();
  status_code a(s);
  REQ_EQ(static_cast<int>(a.value()), n);
  REQ(a == status_code(n) && a.value() == s);
  REQ_EQ(static_cast<int>(a.category()), n / 100);
  REQ_EQ(fmt::format("{}", a), std::to_string(n));
}
