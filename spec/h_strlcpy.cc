#include "vf.h"
#include "strlcpy.cc"
// strlcpy(dst, src, siz): dst gets the first min(strlen, siz-1) bytes and a NUL, result is strlen(src)
extern "C" void H_strlcpy() {
  long len = vf_any<long>(), cap = vf_any<long>();
  vf_assume(len >= 0 && len < (1L << 40) && cap >= 0 && cap < (1L << 40));
  char *src = vf_array<char>(len + 1);
  char *dst = vf_array<char>(cap);
  vf_assume(vf_forall(0, len, [&](long i) { return src[i] != 0; }));
  vf_assume(src[len] == 0);
  if (cap > 0) vf_touch_(dst, 'b');
  char *dst0 = vf_snapshot(dst);
  vf_cover("pre");
  size_t r = pasco_strlcpy(dst, src, cap);
  vf_cover("post");
  vf_assert((long)r == len, "returns strlen(src)");
  long n = cap == 0 ? 0 : (len < cap - 1 ? len : cap - 1);
  vf_assert(vf_forall(0, n, [&](long i) { return dst[i] == src[i]; }), "prefix copied");
  if (cap > 0) vf_assert(dst[n] == 0, "NUL terminated");
  vf_assert(vf_forall(n + 1, cap, [&](long i) { return dst[i] == dst0[i]; }), "bytes after the terminator untouched");
}
