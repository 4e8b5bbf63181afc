// std::random_device replaced by a reproducible stream (the code under test
// seeds particle poses from it). The harness resets it at the start of a case.
#ifndef VF_RANDOM_H
#define VF_RANDOM_H
#include <random>
#include <cstdint>
namespace vf {
inline std::uint64_t &random_device_state() { static std::uint64_t s = 1; return s; }
}
#ifndef VF_KEEP_RANDOM_DEVICE
unsigned int std::random_device::_M_getval() {
  std::uint64_t &s = vf::random_device_state();
  s += 0x9e3779b97f4a7c15ULL;
  std::uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return static_cast<unsigned int>((z ^ (z >> 31)) >> 16);
}
#endif
#endif
