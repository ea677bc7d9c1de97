// Stand-in: fitoria uses these operators only for TLS, which is not built here.
#pragma once
#include <boost/asio.hpp>
namespace boost::asio::experimental::awaitable_operators { }
