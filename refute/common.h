// Runtime contract validation: the postconditions of the contracts, executed on
// the real code.  Used to replay the verifier's counterexamples and to test the
// exact-arithmetic assumption of the proofs.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <csignal>
#include <string>
#include <sstream>
#include <vector>
#include <functional>
#include <limits>
#include <unistd.h>
#include <iostream>
#include <algorithm>
#include <memory>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return u() < p; }
  static std::vector<double> &hints() { static std::vector<double> h; return h; }
  long i(long lo, long hi) {
    if (!hints().empty() && chance(0.12)) {
      double h = hints()[next() % hints().size()] + (long)(next() % 3) - 1;
      if (std::isfinite(h) && h >= lo && h <= hi) return (long)h;
    }
    return lo + (long)(next() % (uint64_t)(hi - lo + 1));
  }
  double d(double lo, double hi) {
    if (!hints().empty() && chance(0.10)) {
      double h = hints()[next() % hints().size()];
      if (chance(0.3)) h += (u() - 0.5) * 1e-3;
      if (chance(0.2)) h = -h;
      if (std::isfinite(h) && h >= lo && h <= hi) return h;
    }
    switch (next() % 16) {
    case 0: return lo;
    case 1: return hi;
    case 2: if (lo <= 0 && 0 <= hi) return 0; break;
    case 3: case 4: { double v = std::round(lo + (hi - lo) * u()); if (lo <= v && v <= hi) return v; break; }
    case 5: case 6: { double v = std::round((lo + (hi - lo) * u()) * 8) / 8; if (lo <= v && v <= hi) return v; break; }
    case 7: { double v = std::round((lo + (hi - lo) * u()) * 10) / 10; if (lo <= v && v <= hi) return v; break; }
    }
    return lo + (hi - lo) * u();
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

struct Failure { std::string msg; };
struct Discard {};

struct Case { const char *name; std::function<void(Rng &)> f; double weight; };
inline std::vector<Case> &cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char *n, std::function<void(Rng &)> f, double w) { cases().push_back({n, f, w}); } };
inline std::ostringstream &in_log() { static std::ostringstream s; return s; }
static char cur_case[256];
static char cur_in[4096];

#define CASE(n, w) static void case_##n(Rng &r); static Reg reg_##n(#n, case_##n, w); static void case_##n(Rng &r)
#define IN(x) do { in_log() << #x << "=" << (x) << " "; strncpy(cur_in, in_log().str().c_str(), sizeof cur_in - 1); } while (0)
#define NOTE(x) do { in_log() << x << " "; strncpy(cur_in, in_log().str().c_str(), sizeof cur_in - 1); } while (0)
#define CHECK(c, m) do { if (!(c)) { std::ostringstream o_; o_ << #c << " is false: " << m; throw Failure{o_.str()}; } } while (0)

inline bool close(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

static void on_signal(int sig) {
  char buf[6000];
  int n = snprintf(buf, sizeof buf, "\nFAIL %s signal %d (abort, fault or hang) input: %s\n", cur_case, sig, cur_in);
  (void)!write(1, buf, n);
  _exit(1);
}

// a sanitizer found an error (memory, undefined behaviour): name the input
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_sanitizer() {
  char buf[6000];
  int n = snprintf(buf, sizeof buf, "\nFAIL %s sanitizer error (memory or undefined behaviour) input: %s\n", cur_case, cur_in);
  (void)!write(1, buf, n);
}

#ifndef NO_MAIN
int main(int argc, char **argv) {
  std::cout.setf(std::ios::unitbuf);
  uint64_t seed = 1; double budget = 5; const char *only = nullptr; long iter = -1;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
    else if (!strcmp(argv[i], "--case")) only = argv[++i];
    else if (!strcmp(argv[i], "--iter")) iter = atol(argv[++i]);
    else if (!strcmp(argv[i], "--hints")) {
      std::istringstream s(argv[++i]); double d; while (s >> d) Rng::hints().push_back(d);
    }
  }
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_sanitizer);
  // the code under test may chat on stderr
  if (!getenv("REFUTE_VERBOSE")) (void)!freopen("/dev/null", "w", stderr);
  double wsum = 0;
  for (auto &c : cases()) wsum += c.weight;
  long total = 0, failed = 0, discarded = 0;
  for (auto &c : cases()) {
    if (only && strcmp(only, c.name)) continue;
    uint64_t h = 1469598103934665603ull;
    for (const char *p = c.name; *p; ++p) h = (h ^ (uint64_t)*p) * 1099511628211ull;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    double lim = budget * c.weight / wsum;
    long n = 0;
    for (long k = iter >= 0 ? iter : 0; ; ++k) {
      snprintf(cur_case, sizeof cur_case, "%s iter %ld seed %llu", c.name, k, (unsigned long long)seed);
      in_log().str(""); cur_in[0] = 0;
      Rng r(h ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)k * 0xD1B54A32D192ED03ull));
      alarm(60);
      try { c.f(r); ++n; }
      catch (const Discard &) { ++discarded; }
      catch (const Failure &f) {
        printf("FAIL %s %s input: %s\n", cur_case, f.msg.c_str(), in_log().str().c_str());
        ++failed; break;
      } catch (const std::exception &e) {
        printf("FAIL %s exception %s input: %s\n", cur_case, e.what(), in_log().str().c_str());
        ++failed; break;
      }
      alarm(0);
      if (iter >= 0) break;
      if (k % 8 == 0) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > lim) break;
      }
    }
    alarm(0);
    total += n;
    printf("CASE %s runs %ld\n", c.name, n);
  }
  printf("TOTAL runs %ld discarded %ld failed %ld\n", total, discarded, failed);
  return failed ? 1 : 0;
}
#endif
