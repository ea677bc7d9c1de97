#include "c41_outcomes.hpp"

void c41::part_c(std::array<add_fn, 2>* t)
{
  fill<15>(t, std::make_integer_sequence<int, 7> {});
}
