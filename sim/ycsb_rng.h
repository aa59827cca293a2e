// Replaces std::default_random_engine in the code under test: every random number
// is the simulator's choice.
#pragma once
#include <cstdint>
#include <random>
extern "C" uint64_t sim_draw();
namespace std {
struct sim_random_engine {
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~uint64_t{0}; }
  result_type operator()() { return sim_draw(); }
  void seed(result_type = 0) {}
  void discard(unsigned long long) {}
};
} // namespace std
#define default_random_engine sim_random_engine
