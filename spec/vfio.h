// Contracts of std::string, Status messages and ReadableFile for the readers.
// The file is known through views by byte position: text, 16- and 32-bit integers, floats. gPos is the read position.
#ifndef VFIO_H_
#define VFIO_H_
#include "vfstd.h"
#include "util.h"
#include "status.h"
using pocketkaldi::Status;
typedef pocketkaldi::util::ReadableFile File;
static long gPos, gLen; static char *gByte; static int *gI32; static short *gI16; static float *gF32;
static File *gFd;
static void *gBulk; static long gBulkN, gBulkSize;    // the destination of the next block read (elements, their size)
// a std::string is known by the C string it was made from; texts of messages are not followed
extern "C" void SC_str(const char **s, const char *p) { *s = p; }
extern "C" void SC_str0(void *s) {}
extern "C" void SC_strcopy(const char **s, const char **t) {}
extern "C" void *SC_strasg(void *s, void *t) { return s; }
extern "C" void SC_strdel(void *s) {}
extern "C" void SC_fmt(void *out) {}
extern "C" void SC_status(Status *s, int code, void *msg) { s->code_ = code; }
static void vf_st(Status *s, int code) { s->code_ = code; }
static bool text_at(long p, const char *t) {
  bool ok = true;
  for (int i = 0; t[i] != 0; ++i) ok = ok & (gByte[p + i] == t[i]);
  return ok;
}
static long text_len(const char *t) { long n = 0; while (t[n] != 0) ++n; return n; }
static int gBulkKind;      // elements: 0 float, 1 int
static void fill(void *ptr, int kind, long p, long n) {
  if (kind == 0) {
    float *d = (float *)ptr, *F = gF32;
    vf_havoc_array_(d); vf_assume(vf_forall(0, n, [=](long i) -> bool { return d[i] == F[p + 4 * i]; }));
  } else {
    int *d = (int *)ptr, *F = gI32;
    vf_havoc_array_(d); vf_assume(vf_forall(0, n, [=](long i) -> bool { return d[i] == F[p + 4 * i]; }));
  }
}
// contract of ReadableFile::Read: `size` bytes from the position on, or an error when there are not enough
extern "C" void SC_read(Status *out, File *fd, void *ptr, int size) {
  vf_assert(fd == gFd && size >= 0, "a read of the file");
  if (gPos + size > gLen) { vf_st(out, 1); gPos = gLen; return; }
  long p = gPos, n = gBulkN;
  if (size == 0) { vf_st(out, 0); return; }
  if (gBulk && ptr == gBulk) {
    vf_assert((long)size == gBulkN * gBulkSize, "a block read fills its destination");
    fill(ptr, gBulkKind, p, n);
  }
#ifdef IO_BLOCKS
  else if (IO_BLOCKS(ptr, size, p)) {}
#endif
  else if (size == 4) *(int *)ptr = gI32[p];
  else if (size == 2) *(short *)ptr = gI16[p];
  else vf_assert(false, "a read of another size");
  gPos = p + size;
  vf_st(out, 0);
}
// contract of ReadableFile::ReadAndVerifyString
extern "C" void SC_verify(Status *out, File *fd, const char **s) {
  vf_assert(fd == gFd, "a read of the file");
  const char *t = *s; long n = text_len(t);
  if (gPos + n > gLen) { vf_st(out, 1); gPos = gLen; return; }
  bool ok = text_at(gPos, t);
  gPos += n;
  vf_st(out, ok ? 0 : 2);
}
static File *any_file() {
  gFd = vf_array<File>(1); gFd->fd_ = (FILE *)vf_array<char>(1);
  long room = vf_any<long>(); gLen = vf_any<long>(); gPos = vf_any<long>();
  vf_assume((0 <= gLen) & (gLen < 4000000000000L) & (0 <= gPos) & (gPos <= gLen) & (room >= gLen + 4000000000L) & (room < 8000000000000L));
  gByte = vf_array<char>(room); vf_touch_(gByte, 'b');
  gI32 = vf_array<int>(room); vf_touch_(gI32, 'i');
  gI16 = vf_array<short>(room); vf_touch_(gI16, 's');
  gF32 = vf_array<float>(room); vf_touch_(gF32, 'f');
  gBulk = nullptr;
  return gFd;
}
#endif
