// Stand-in for Boost.Scope, for the project's own tests.
#pragma once
#include <utility>

namespace boost::scope {
template <typename F>
class scope_exit {
  F f_;

public:
  explicit scope_exit(F f)
      : f_(std::move(f))
  {
  }
  scope_exit(const scope_exit&) = delete;
  ~scope_exit()
  {
    f_();
  }
};
template <typename F>
auto make_scope_exit(F f)
{
  return scope_exit<F>(std::move(f));
}
}
