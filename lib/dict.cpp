// Integer constants and texts that occur in the library's headers (regenerated by run.py
// from the current tree): a dictionary for the value generators.
#include "ref.hpp"

#include "dict.inc"

namespace ref {
std::vector<i128> const& constants_in_headers()
{
  static std::vector<i128> const v = [] {
    std::vector<i128> r;
    for (unsigned long long x : dict_values)
      r.push_back(i128(x));
    return r;
  }();
  return v;
}

std::vector<std::string> const& texts_in_headers()
{
  static std::vector<std::string> const v(std::begin(dict_texts), std::end(dict_texts));
  return v;
}
} // namespace ref
