#include "c35_extract.hpp"

namespace c35 {
using namespace web;
web::http_server::builder serve_bodies(web::http_server::builder b)
{
  using text5 = std::tuple<int, std::string, std::uint8_t, bool, double>;
  using body_bytes = std::vector<std::byte>;
  auto everywhere = std::make_shared<std::string>("everywhere");
  return std::move(b)
      .serve(route::any<"/form">(take<form_of<day_t>>()))
      .serve(route::any<"/form-wide">(take<form_of<wide_t>>()))
      .serve(route::any<"/json">(take<json_of<user_t>>()))
      .serve(route::any<"/string">(take<std::string>()))
      .serve(route::any<"/bytes">(take<body_bytes>()))
      .serve(route::any<"/chars">(take<std::vector<char>>()))
      .serve(route::any<"/words">(take<std::vector<std::uint16_t>>()))
      .serve(route::any<"/pairs">(take<std::vector<pair_t>>()))
      .serve(route::any<"/state/route">(take<state_of<counter_t>>()).use_state(counter_t { 1 }))
      .serve(scope<"/in">()
                 .use_state(counter_t { 2 })
                 .serve(route::any<"/state">(take<state_of<counter_t>>()))
                 .serve(route::any<"/state/own">(take<state_of<counter_t>, state_of<std::shared_ptr<std::string>>>()).use_state(counter_t { 3 }).use_state(everywhere))
                 .serve(route::any<"/mix/{n}">(take<path_of<std::tuple<std::int64_t>>, query_of<day_t>, state_of<counter_t>, const http::header_map&, json_of<user_t>, http::version>())))
      .serve(route::any<"/state/none">(take<state_of<counter_t>>()))
      .serve(route::any<"/state/none/form">(take<form_of<wide_t>, state_of<counter_t>>()));
}
}
