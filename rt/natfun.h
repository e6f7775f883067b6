// Concrete interpretation of the abstract inputs of a contract, shared by the
// verifier (sampling, counterexamples) and by the native replay runtime.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
static inline uint64_t lfv_mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static inline uint64_t lfv_hash(const char* s, uint64_t seed) {
  uint64_t h = lfv_mix(seed + 77);
  for (; *s; ++s) h = lfv_mix(h ^ (uint64_t)(unsigned char)*s);
  return h;
}
static inline double lfv_unit(uint64_t h) { return (double)(h >> 11) / 9007199254740992.0; }
// value of a real input called `name`
static inline double lfv_nat_real(const char* name, uint64_t seed, double lo, double hi) {
  return lo + (hi - lo) * lfv_unit(lfv_hash(name, seed));
}
static inline double lfv_nat_fun(const char* name, int n, const double* a) {
  uint64_t h = lfv_hash(name, 4711);
  double v = 2.0 * lfv_unit(h) - 1.0, q = 0.3 + lfv_unit(lfv_mix(h));
  for (int i = 0; i < n; ++i) {
    double w = 2.0 * lfv_unit(lfv_mix(h + 13 * (i + 1))) - 1.0;
    v += w * a[i];
    q += (0.4 + lfv_unit(lfv_mix(h + 1000 + 17 * i))) * a[i] * (i % 2 ? 1.0 : -1.0);
  }
  return v + 0.75 * std::sin(q);
}
