#include "c35_extract.hpp"

namespace c35 {
using namespace web;
web::http_server::builder serve_mixes(web::http_server::builder b)
{
  using text5 = std::tuple<int, std::string, std::uint8_t, bool, double>;
  using body_bytes = std::vector<std::byte>;
  auto everywhere = std::make_shared<std::string>("everywhere");
  return std::move(b)
      .serve(route::any<"/mix/{day}/{month}/{year}/{share}/{leap}">(take<form_of<wide_t>, path_of<day_t>, token_t, state_of<std::shared_ptr<std::string>>>()).use_state(everywhere))
      .serve(route::any<"/all/{n}/{month}">(take<const query_map&, const path_info&, const connect_info&, const request&, const http::version&, std::string>()))
      .serve(route::any<"/body-first">(take<std::string, query_of<wide_t>>()))
      .serve(route::any<"/body-last">(take<token_t, query_of<wide_t>, body_bytes>()))
      .serve(route::any<"/token">(take<token_t>()));
}
}
