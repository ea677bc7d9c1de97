// Stand-in for boost/beast/_experimental/test/stream.hpp (see standin/README.md).
#pragma once
#include <boost/beast.hpp>

namespace boost::beast::test {
// one end of a connection held in memory
template <typename Executor = asio::any_io_executor>
class basic_stream {
  struct impl {
    Executor ex;
    asio::standin::channel_end end;
    explicit impl(Executor e)
        : ex(std::move(e))
    {
    }
    ~impl()
    {
      end.close();
    }
  };
  std::shared_ptr<impl> p_;

public:
  using executor_type = Executor;
  explicit basic_stream(const Executor& e)
      : p_(std::make_shared<impl>(e))
  {
  }
  template <asio::standin::context_like Ctx>
  explicit basic_stream(Ctx& c)
      : p_(std::make_shared<impl>(c.get_executor()))
  {
  }
  basic_stream(basic_stream&&) = default;
  basic_stream& operator=(basic_stream&&) = default;
  Executor get_executor() noexcept
  {
    return p_->ex;
  }
  void connect(basic_stream& o)
  {
    asio::standin::channel_end::join(p_->end, o.p_->end);
  }
  friend void connect(basic_stream& a, basic_stream& b)
  {
    a.connect(b);
  }
  void close()
  {
    p_->end.close();
  }
  template <typename Buffers, typename Token>
  auto async_read_some(const Buffers& bs, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code, std::size_t)>(
        [p](auto&& handler, std::vector<asio::mutable_buffer> v) {
          p->end.read(p->ex.sched(), v, std::forward<decltype(handler)>(handler));
        },
        token,
        asio::standin::scatter(bs));
  }
  template <typename Buffers, typename Token>
  auto async_write_some(const Buffers& bs, Token&& token)
  {
    auto p = p_;
    return asio::async_initiate<Token, void(error_code, std::size_t)>(
        [p](auto&& handler, std::vector<asio::const_buffer> v) {
          p->end.write(p->ex.sched(), v, std::forward<decltype(handler)>(handler));
        },
        token,
        asio::standin::gather(bs));
  }
  asio::standin::channel_end& standin_end()
  {
    return p_->end;
  }
};
using stream = basic_stream<>;
}
