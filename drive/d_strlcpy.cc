// strlcpy against its definition: every (length, size) pair up to 80x90, random longer ones; guard bytes around dst
#include "drv.h"
#include "util.h"
static void one(Rng &r, int len, int cap) {
  std::string s; for (int i = 0; i < len; ++i) s += (char)r.range(1, 255);
  drv_begin("strlcpy: strlen(src)=%d size=%d", len, cap);
  char *src = (char *)malloc(len + 1); memcpy(src, s.data(), len); src[len] = 0;
  unsigned char *d = (unsigned char *)malloc(cap + 32), *d0 = (unsigned char *)malloc(cap + 32);
  for (int i = 0; i < cap + 32; ++i) d[i] = d0[i] = (unsigned char)r.next();
  size_t z = pasco_strlcpy((char *)d + 16, src, cap);
  CHECKF(z == (size_t)len, "returned %zu instead of the source length", z);
  int n = cap == 0 ? 0 : len < cap - 1 ? len : cap - 1;
  for (int i = 0; i < n; ++i) CHECKF(d[16 + i] == (unsigned char)src[i], "byte %d not copied", i);
  if (cap) CHECKF(d[16 + n] == 0, "not terminated at %d", n);
  for (int i = 0; i < cap + 32; ++i) if (i < 16 || i >= 16 + (cap ? n + 1 : 0)) CHECKF(d[i] == d0[i], "byte at offset %d outside the copied text changed", i - 16);
  CHECKF(!memcmp(src, s.data(), len), "source changed");
  free(src); free(d); free(d0); drv_end();
}
void drv_main(uint64_t seed) {
  Rng r(seed);
  for (int l = 0; l < 80; ++l) for (int c = 0; c < 90; ++c) one(r, l, c);
  while (drv_time()) { int l = r.below(5000); int c = r.chance(50) ? l + r.range(-2, 2) : r.below(6000); one(r, l, c < 0 ? 0 : c); }
}
