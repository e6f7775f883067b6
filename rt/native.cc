// Native interpretation of the specification intrinsics: replay of a counterexample of the
// verifier, or evaluation of a contract on random inputs, against the compiled code.
//   <bin> list
//   <bin> replay UNIT FILE      FILE lines: "seed N" | "choice NAME K" | "input NAME VALUE"
//   <bin> random UNIT N SEED SECONDS      special instead of random: with special values among the inputs
#include <dlfcn.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "natfun.h"
#include "lfv.h"

static uint64_t g_seed = 1000;
static bool g_random = false;
static std::map<std::string, double> g_in;
static std::map<std::string, long> g_choice;
static long g_fail = 0, g_checks = 0;
static bool g_expect = false;
static std::string g_trace;
static std::string nm(const char* n, int i, int j) { std::string s = n; if (i >= 0) s += "_" + std::to_string(i); if (j >= 0) s += "_" + std::to_string(j); return s; }
extern "C" {
double lfv_real(const char* n, int i, int j, double lo, double hi) {
  auto s = nm(n, i, j); auto it = g_in.find(s);
  double v = it != g_in.end() ? it->second : lfv_nat_real(s.c_str(), g_seed, lo, hi);
  // special seeds: many unconstrained values are 0, 1 or -1
  if (it == g_in.end() && (g_seed >> 62) == 1 && lo == -1.0 && hi == 1.0) { const uint64_t h = lfv_hash(("special:" + s).c_str(), g_seed) >> 5; if (h % 5 < 3) v = (double)(long)(h % 5) - (h % 5 == 2 ? 3.0 : 0.0); }
  if (g_trace.size() < 4000) g_trace += " " + s + "=" + std::to_string(v);
  return v;
}
long lfv_int(const char* n, int i, int j, long lo, long hi) {
  auto s = nm(n, i, j); auto it = g_in.find(s);
  if (it != g_in.end()) return (long)it->second;
  unsigned __int128 span = (unsigned __int128)((__int128)hi - lo) + 1;
  uint64_t h = lfv_hash(s.c_str(), g_seed);
  if (span > 64 && (h & 3) == 0) return lo + (long)((h >> 8) % 8);
  if (span > 64 && (h & 3) == 1) return hi - (long)((h >> 8) % 8);
  return (long)(lo + (__int128)((h >> 3) % span));
}
long lfv_choose(const char* n, int i, int j, long k) {
  auto s = nm(n, i, j); auto it = g_choice.find(s);
  long v = it != g_choice.end() ? it->second : (long)(lfv_hash(("choose:" + s).c_str(), g_seed) % (uint64_t)(k > 0 ? k : 1));
  if (k <= 0) _exit(77);
  if (v >= k) _exit(77);
  if (g_trace.size() < 4000) g_trace += " " + s + ":=" + std::to_string(v);
  return v;
}
void lfv_assume(bool b) { if (!b) _exit(g_fail ? 1 : 77); }
void lfv_ensure(const char* n, bool b) { ++g_checks; if (!b) { ++g_fail; printf("FAIL %s\n", n); fflush(stdout); } }
void lfv_eq(const char* n, double a, double b, double tol) {
  ++g_checks;
  double t = std::max(tol, 1e-7) * std::max({1.0, std::fabs(a), std::fabs(b)});
  if (a == b) return;
  if (!(std::fabs(a - b) <= t)) { ++g_fail; printf("FAIL %s left=%.15g right=%.15g\n", n, a, b); fflush(stdout); }
}
void lfv_deriv_at0(const char*, double, double, double, double) {}
void lfv_cover(const char*) {}
double lfv_fun(const char* n, int k, const double* a) { return lfv_nat_fun(n, k, a); }
long lfv_fun_int(const char* n, int k, const long* a, long lo, long hi) {
  uint64_t h = lfv_hash(n, 4711);
  for (int i = 0; i < k; ++i) h = lfv_mix(h ^ (uint64_t)a[i]);
  unsigned __int128 span = (unsigned __int128)((__int128)hi - lo) + 1;
  return (long)(lo + (__int128)((h >> 3) % span));
}
void lfv_expect_abort(int on) { g_expect = on; }
int lfv_symbolic() { return 0; }
void lfv_note(const char* n, double v) { printf("note %s %g\n", n, v); }
bool lfv_provable(bool b) { return b; }
}
static void onsig(int s) {
  if (s == SIGABRT && g_expect) { _exit(g_fail ? 1 : 0); }
  const char m[] = "FAIL abnormal termination (assertion failure or crash)\n";
  if (write(1, m, sizeof m - 1)) {}
  _exit(1);
}
static int runOne(void (*f)()) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &rl);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, onsig);
    try { f(); } catch (std::exception& e) { printf("FAIL uncaught exception %s\n", e.what()); fflush(stdout); _exit(1); } catch (...) { printf("FAIL uncaught exception\n"); fflush(stdout); _exit(1); }
    if (g_fail && g_trace.size()) { printf("INPUTS%s\n", g_trace.c_str()); fflush(stdout); }
    _exit(g_fail ? 1 : g_checks ? 0 : 78);
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) return 79; return 1; }
  return WEXITSTATUS(st);
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::string mode = argv[1], unit = argv[2];
  auto f = (void (*)())dlsym(RTLD_DEFAULT, unit.c_str());
  if (!f) { printf("no unit %s\n", unit.c_str()); return 3; }
  if (mode == "replay") {
    std::ifstream in(argv[3]); std::string l;
    while (std::getline(in, l)) { std::stringstream ss(l); std::string k; ss >> k; if (k == "seed") ss >> g_seed; else if (k == "choice") { std::string n; long v; ss >> n >> v; g_choice[n] = v; } else if (k == "input") { std::string n, v; ss >> n >> v; g_in[n] = strtod(v.c_str(), nullptr); } }
    return runOne(f);
  }
  if (mode == "random" || mode == "special") {
    long n = atol(argv[3]); uint64_t seed = (uint64_t)atol(argv[4]); double lim = atof(argv[5]);
    auto t0 = std::chrono::steady_clock::now();
    long ran = 0, skipped = 0;
    for (long i = 0; i < n; ++i) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > lim) break;
      g_seed = seed * 1000003 + (uint64_t)i;
      if (mode == "special") g_seed = (g_seed & 0xffffffffffffull) | (1ull << 62);
      int r = runOne(f);
      if (r == 77 || r == 78 || r == 79) { ++skipped; continue; }
      ++ran;
      if (r != 0) { printf("SEED %llu\n", (unsigned long long)g_seed); return 1; }
    }
    printf("RAN %ld SKIPPED %ld\n", ran, skipped);
    return 0;
  }
  return 3;
}
