// Assigning an unexpected to an expected reference, whatever the form of the
// source; with BASE only the forms that need no exact-match overload.
#include <fitoria/core/expected.hpp>
#include <utility>

int main()
{
  namespace fi = fitoria;
  int i = 0;
  fi::expected<int&, long> x(i);
  fi::unexpected<long> u(5L);
  fi::unexpected<short> s(short(6));
  const auto& cu = u;
  x = cu;
  x = std::move(u);
#ifndef BASE
  x = u;
  x = s;
  x = std::move(cu);
#endif
  return x.has_value();
}
