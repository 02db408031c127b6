// Stand-in for the Xoshiro-cpp submodule (absent here): only the type and its interface, so that Random.h can be compiled
#ifndef SR_STUB_XOSHIRO
#define SR_STUB_XOSHIRO
#include <array>
#include <cstdint>
namespace XoshiroCpp {
struct Xoshiro256PlusPlus {
  using state_type=std::array<uint64_t,4>; using result_type=uint64_t; state_type st{};
  explicit Xoshiro256PlusPlus(uint64_t s=0) {st[0]=s;}
  static constexpr result_type min() {return 0;} static constexpr result_type max() {return ~uint64_t(0);}
  result_type operator()() {return ++st[0];}
  state_type serialize() const {return st;} void deserialize(const state_type& s) {st=s;}
};
}
#endif
