// Common part of the native drivers: deterministic random numbers, case log, failure report.
#ifndef DRV_H_
#define DRV_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)());
#define DRV_ASAN 1
#endif
#endif
static char drv_case[1 << 16];
static size_t drv_len = 0;
static long drv_ncases = 0, drv_steps = 0;
static std::set<uint64_t> drv_distinct;
static std::vector<std::string> drv_samples;
static std::string drv_work;
static double drv_t0 = 0, drv_secs = 10;
static int drv_failed = 0;
static inline double drv_now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void drv_dump() {
  static int once = 0; if (once++) return;
  const char *h = "\nFAIL-CASE "; (void)!write(1, h, strlen(h)); (void)!write(1, drv_case, drv_len); (void)!write(1, "\n", 1);
}
static void drv_sig(int s) {
  const char *m = s == SIGALRM ? "\nFAIL the call does not return (hang)\n" : s == SIGABRT ? "\nFAIL the code aborts (assertion)\n" : "\nFAIL crash (signal)\n";
  (void)!write(1, m, strlen(m)); drv_dump(); _exit(7);
}
static void drv_death() { drv_dump(); }
// starts a new case; everything logged until the next one is its description
static void drv_begin(const char *fmt, ...) {
  va_list a; va_start(a, fmt); int n = vsnprintf(drv_case, sizeof drv_case - 1, fmt, a); va_end(a);
  drv_len = n < 0 ? 0 : n < (int)sizeof drv_case - 1 ? n : sizeof drv_case - 2; ++drv_ncases; alarm(40);
}
static void drv_log(const char *fmt, ...) {
  if (drv_len > sizeof drv_case - 200) return;
  va_list a; va_start(a, fmt); int n = vsnprintf(drv_case + drv_len, sizeof drv_case - drv_len - 1, fmt, a); va_end(a);
  if (n > 0) { drv_len += n; if (drv_len > sizeof drv_case - 2) drv_len = sizeof drv_case - 2; } ++drv_steps;
}
static void drv_end() {
  uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < drv_len; ++i) h = (h ^ (unsigned char)drv_case[i]) * 1099511628211ULL;
  if (drv_distinct.size() < 2000000) drv_distinct.insert(h);
  if (drv_samples.size() < 3) drv_samples.push_back(std::string(drv_case, drv_len < 300 ? drv_len : 300));
}
static void drv_fail(const char *fmt, ...) {
  printf("\nFAIL "); va_list a; va_start(a, fmt); vprintf(fmt, a); va_end(a); printf("\n"); fflush(stdout);
  drv_dump(); _exit(8);
}
#define CHECKF(c, ...) do { if (!(c)) drv_fail(__VA_ARGS__); } while (0)
static bool drv_time() { return drv_now() - drv_t0 < drv_secs; }
static std::string drv_esc(const std::string &s) { std::string r; for (unsigned char c : s) if (c < 32 || c > 126 || c == '"' || c == '\\') { char b[8]; snprintf(b, 8, "<%02x>", c); r += b; } else r += c; return r; }
struct Rng {
  uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int p) { return below(100) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  float real(float m) { return (float)((unit() * 2 - 1) * m); }
};
void drv_main(uint64_t seed);
int main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; drv_secs = argc > 2 ? atof(argv[2]) : 5; drv_work = argc > 3 ? argv[3] : "/tmp";
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  signal(SIGABRT, drv_sig); signal(SIGALRM, drv_sig); signal(SIGFPE, drv_sig);
#ifdef DRV_ASAN
  __sanitizer_set_death_callback(drv_death);
#endif
  drv_t0 = drv_now();
  drv_main(seed);
  alarm(0);
  std::string sm;
  for (auto &s : drv_samples) { if (!sm.empty()) sm += ", "; sm += "\"" + drv_esc(s) + "\""; }
  printf("\nSTATS {\"cases\": %ld, \"distinct\": %ld, \"steps\": %ld, \"seconds\": %.1f, \"samples\": [%s]}\n", drv_ncases, (long)drv_distinct.size(), drv_steps, drv_now() - drv_t0, sm.c_str());
  fflush(stdout); _exit(0);
}
#endif
