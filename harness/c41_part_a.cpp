#include "c41_outcomes.hpp"

void c41::part_a(std::array<add_fn, 2>* t)
{
  fill<0>(t, std::make_integer_sequence<int, 8> {});
}
