#pragma once
#include <cstddef>
#include <vector>
namespace c20 {
struct entry {
  const char* text;
  std::size_t size;
  bool wildcards;
  bool constant;
  bool ok;
  const char* tokens;
  std::size_t ntokens;
};
const std::vector<entry>& table();
}
