// Stand-in for the pcg submodule (absent here): only the type and its interface, so that Random.h can be compiled
#ifndef SR_STUB_PCG
#define SR_STUB_PCG
#include <cstdint>
#include <iostream>
struct pcg64 {
  using result_type=uint64_t; uint64_t s=0,p=0;
  explicit pcg64(uint64_t seed=0, uint64_t stream=0) : s(seed), p(stream) {}
  static constexpr result_type min() {return 0;} static constexpr result_type max() {return ~uint64_t(0);}
  result_type operator()() {s=s*6364136223846793005ULL+2*p+1; return s;}
  bool operator==(const pcg64& o) const {return s==o.s && p==o.p;}
};
inline std::ostream& operator<<(std::ostream& os, const pcg64& e) {return os<<e.s<<' '<<e.p;}
inline std::istream& operator>>(std::istream& is, pcg64& e) {return is>>e.s>>e.p;}
#endif
