// Replaces the random sources the code under test creates by ones the explorer controls.
// Include before any repository header.
#ifndef VERIF_RNG_H
#define VERIF_RNG_H
#include <cstdint>
#include <random>
#include <vector>
namespace mc {
// the first engine created after arm() answers with the scripted draws (numbers in [0, 1)); all other draws are a fixed pseudo-random sequence, different for every engine
struct Rng { std::vector<double> script; size_t used = 0; int owner = -1, created = 0; uint64_t seeds = 1; bool armed = false; void arm(std::vector<double> s) { script = std::move(s); used = 0; owner = -1; armed = true; } void disarm() { armed = false; } void restart() { *this = Rng{}; } };
inline Rng &rng() { static Rng r; return r; }
}
namespace std {
struct mc_random_device { typedef unsigned result_type; unsigned operator()() { uint64_t z = mc::rng().seeds++ * 0x9E3779B97F4A7C15ull; return unsigned(z >> 32 ^ z); } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } };
struct mc_mt19937 {
  typedef uint64_t result_type; uint64_t s; int id;
  mc_mt19937(uint64_t seed = 5489) : s(seed), id(mc::rng().created++) { auto &r = mc::rng(); if (r.armed && r.owner < 0) r.owner = id; }
  void seed(uint64_t v = 5489) { s = v; }
  void discard(unsigned long long n) { while (n--) (*this)(); }
  static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { auto &r = mc::rng(); if (r.armed && r.owner == id && r.used < r.script.size()) return uint64_t(std::ldexp(r.script[r.used++], 64)); uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
  bool operator==(const mc_mt19937 &o) const { return s == o.s; }
};
}
#define mt19937 mc_mt19937
#define random_device mc_random_device
#endif
