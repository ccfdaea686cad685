// Puts the library's generator in a state whose next draws are extreme.
#ifndef EO_EXTREME_HPP
#define EO_EXTREME_HPP
#include <utils/eoRNG.h>
#include <sstream>
namespace vt {
inline uint32_t untemper(uint32_t y) {
  y ^= y >> 18; y ^= (y << 15) & 0xEFC60000U;
  uint32_t x = y; for (int i = 0; i < 5; ++i) x = y ^ ((x << 7) & 0x9D2C5680U); y = x;
  x = y; for (int i = 0; i < 3; ++i) x = y ^ (x >> 11); return x; }
// next draws of g: the given values, then ordinary ones; false if the state could not be arranged
inline bool nextdraws(eoRng& g, const std::vector<uint32_t>& v, uint32_t seed) {
  eoRng t(seed); for (int i = 0; i < 3; ++i) t.rand(); std::ostringstream o; t.printOn(o); std::istringstream i(o.str()); std::vector<std::string> w; std::string s; while (i >> s) w.push_back(s);
  if (w.size() != 628) return false;
  int at = atoi(w[624].c_str()); for (size_t k = 0; k < v.size() && at + (int)k < 624; ++k) w[at + k] = std::to_string(untemper(v[k])); w[626] = "0"; w[627] = "0";
  std::string all; for (auto& x : w) all += x + " ";
  { eoRng c(1); std::istringstream in(all); c.readFrom(in); for (uint32_t x : v) if (c.rand() != x) return false; }
  std::istringstream in(all); g.readFrom(in); return true; }
}
#endif
