// Stand-in for Boost.Asio's experimental::concurrent_channel.
#pragma once
#include <boost/asio.hpp>

namespace boost::asio::experimental {
namespace error {
enum channel_errors { channel_closed = 1, channel_cancelled = 2 };
class channel_category : public std::error_category {
public:
  const char* name() const noexcept override
  {
    return "asio.channel";
  }
  std::string message(int v) const override
  {
    return v == channel_closed ? "Channel closed" : "Channel cancelled";
  }
};
inline std::error_code make_error_code(channel_errors e)
{
  static channel_category c;
  return { static_cast<int>(e), c };
}
}
template <typename Executor, typename Signature>
class concurrent_channel;

template <typename Executor, typename T>
class concurrent_channel<Executor, void(system::error_code, T)> {
  struct state {
    std::mutex m;
    std::size_t limit = 0;
    bool closed = false;
    std::deque<std::pair<system::error_code, T>> buffered;
    struct sender {
      std::pair<system::error_code, T> what;
      std::function<void(system::error_code)> done;
    };
    std::deque<sender> senders;
    std::deque<std::function<void(system::error_code, T)>> receivers;
  };

public:
  using executor_type = Executor;
  template <standin::executor_like Ex>
  explicit concurrent_channel(const Ex& ex, std::size_t limit = 0)
      : ex_(ex)
  {
    s_->limit = limit;
  }
  ~concurrent_channel()
  {
    cancel();
  }
  concurrent_channel(const concurrent_channel&) = delete;
  const Executor& get_executor() const
  {
    return ex_;
  }
  std::size_t capacity() const
  {
    return s_->limit;
  }
  void cancel()
  {
    std::deque<typename state::sender> ss;
    std::deque<std::function<void(system::error_code, T)>> rs;
    {
      std::lock_guard l(s_->m);
      ss.swap(s_->senders);
      rs.swap(s_->receivers);
    }
    auto ec = make_error_code(error::channel_cancelled);
    for (auto& s : ss) {
      ex_.sched().post([d = s.done, ec] { d(ec); });
    }
    for (auto& r : rs) {
      ex_.sched().post([r, ec] { r(ec, T()); });
    }
  }
  void close()
  {
    {
      std::lock_guard l(s_->m);
      s_->closed = true;
    }
    cancel();
  }
  template <typename Token>
  auto async_send(system::error_code ec, T v, Token&& token)
  {
    return async_initiate<Token, void(system::error_code)>(
        [this](auto&& handler, system::error_code e, T value) {
          auto done = standin::erased<void(system::error_code)>(
                          std::forward<decltype(handler)>(handler))
                          .f;
          std::lock_guard l(s_->m);
          if (s_->closed) {
            ex_.sched().post(
                [done] { done(make_error_code(error::channel_closed)); });
          } else if (!s_->receivers.empty()) {
            auto r = std::move(s_->receivers.front());
            s_->receivers.pop_front();
            ex_.sched().post([r, e, value] { r(e, value); });
            ex_.sched().post([done] { done({}); });
          } else if (s_->buffered.size() < s_->limit) {
            s_->buffered.emplace_back(e, std::move(value));
            ex_.sched().post([done] { done({}); });
          } else {
            s_->senders.push_back({ { e, std::move(value) }, done });
          }
        },
        token,
        ec,
        std::move(v));
  }
  template <typename Token>
  auto async_receive(Token&& token)
  {
    return async_initiate<Token, void(system::error_code, T)>(
        [this](auto&& handler) {
          auto r = standin::erased<void(system::error_code, T)>(
                       std::forward<decltype(handler)>(handler))
                       .f;
          std::lock_guard l(s_->m);
          auto give = [&](std::pair<system::error_code, T> p) {
            ex_.sched().post([r, p] { r(p.first, p.second); });
          };
          if (!s_->buffered.empty()) {
            give(std::move(s_->buffered.front()));
            s_->buffered.pop_front();
            if (!s_->senders.empty()) {
              s_->buffered.push_back(std::move(s_->senders.front().what));
              ex_.sched().post(
                  [d = std::move(s_->senders.front().done)] { d({}); });
              s_->senders.pop_front();
            }
          } else if (!s_->senders.empty()) {
            give(std::move(s_->senders.front().what));
            ex_.sched().post(
                [d = std::move(s_->senders.front().done)] { d({}); });
            s_->senders.pop_front();
          } else if (s_->closed) {
            give({ make_error_code(error::channel_closed), T() });
          } else {
            s_->receivers.push_back(r);
          }
        },
        token);
  }

private:
  Executor ex_;
  std::shared_ptr<state> s_ = std::make_shared<state>();
};
}
