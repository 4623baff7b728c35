#ifndef VERIF_BIG_HPP
#define VERIF_BIG_HPP
// numbers in traces: [sign, limbs base 4096 least significant first] (spec/Big.tla)
#include "common.hpp"
typedef __int128 i128;
inline std::string big(i128 v) {
  std::vector<long long> o; o.push_back(v < 0 ? -1 : v > 0 ? 1 : 0);
  unsigned __int128 m = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
  while (m) { o.push_back((long long)(m & 4095)); m >>= 12; }
  return arr(o);
}
#endif
