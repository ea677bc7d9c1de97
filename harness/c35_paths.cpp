#include "c35_extract.hpp"

namespace c35 {
using namespace web;
web::http_server::builder serve_paths(web::http_server::builder b)
{
  using text5 = std::tuple<int, std::string, std::uint8_t, bool, double>;
  using body_bytes = std::vector<std::byte>;
  auto everywhere = std::make_shared<std::string>("everywhere");
  return std::move(b)
      .serve(route::any<"/tuple/{year}/{a}/{b}/{c}/{d}">(take<path_of<text5>>()))
      .serve(route::any<"/struct/{leap}/{share}/x/{month}/{day}/{year}">(take<path_of<day_t>>()))
      .serve(route::any<"/few/{year}/{month}">(take<path_of<text5>>()))
      .serve(route::any<"/few-fields/{year}/{month}">(take<path_of<day_t>>()))
      .serve(route::any<"/other-fields/{leap}/{share}/{month}/{day}/{years}">(take<path_of<day_t>>()))
      .serve(route::any<"/query">(take<query_of<day_t>>()))
      .serve(route::any<"/query-wide">(take<query_of<wide_t>>()));
}
}
