#pragma once
#include <cstddef>
#include <vector>
namespace c25 {
struct entry {
  const char* what;
  const char* want; // bytes of the expected units
  std::size_t nwant;
  const char* got;
  std::size_t ngot;
  std::size_t size, units;
  bool constant;
  bool same_type;
};
const std::vector<entry>& table();
}
