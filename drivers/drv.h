// Common part of the concrete drivers: operation log, random source, failure report.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <chrono>
#include <unistd.h>
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static std::vector<std::string> g_log;
static void opf(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); g_log.push_back(b); }
static void dumpLog() {
  size_t n = g_log.size(), s = n > 200 ? n - 200 : 0;
  printf("operation sequence (%zu operations):\n", n);
  for (size_t i = s; i < n; ++i) printf("  %s\n", g_log[i].c_str());
  fflush(stdout);
}
static void fail(const char *f, ...) {
  va_list a; va_start(a, f); printf("MISMATCH: "); vprintf(f, a); printf("\n"); va_end(a);
  dumpLog(); _exit(1);
}
static uint64_t g_s = 1;
static uint64_t rnd() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s * 0x2545F4914F6CDD1DULL; }
static uint64_t rnd(uint64_t n) { return (rnd() >> 11) % n; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onDeath() { dumpLog(); }
template <class F> static int drive(int argc, char **argv, F round) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 5;
  __asan_set_death_callback(onDeath);
  double t0 = now(); uint64_t r = 0;
  while (now() - t0 < secs) {
    g_s = (seed * 1000003 + r) * 0x9E3779B97F4A7C15ULL + 0x1234567; rnd(); rnd();
    g_log.clear(); opf("seed %llu round %llu", (unsigned long long)seed, (unsigned long long)r);
    round(r); ++r;
  }
  printf("%llu rounds without a mismatch\n", (unsigned long long)r);
  return 0;
}
