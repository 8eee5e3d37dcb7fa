#include "vfio.h"
#include "pcm_reader.cc"
using namespace pocketkaldi;
// H_header: the header is accepted exactly when it is canonical (the oracle reads the file at fixed positions)
extern "C" void H_header() {
  File *f = any_file();
  long p = gPos;
  ce_wave_format_t fmt;
  int rate = gI32[p + 24], brate = gI32[p + 28]; short chans = gI16[p + 22], align = gI16[p + 32], bits = gI16[p + 34];
  long frame = chans * bits / 8;      // bytes of one sample of all channels
  bool good = (p + 44 <= gLen) & text_at(p, "RIFF") & text_at(p + 8, "WAVE") & text_at(p + 12, "fmt ") & (gI32[p + 16] == 16) & (gI16[p + 20] == 1)
            & ((long)brate == rate * frame) & ((long)align == frame) & text_at(p + 36, "data");
  vf_cover("pre");
  Status st = ReadPcmHeader(f, &fmt);
  vf_assert((st.code_ == 0) == good, "accepted exactly when canonical and consistent");
  if (st.code_ == 0) {
    vf_cover("accepted");
    vf_assert(gPos == p + 44, "positioned at the first sample");
    vf_assert(fmt.num_channels == chans && fmt.sample_rate == rate && fmt.bits_per_sample == bits, "the format of the header");
  }
}
extern "C" void H_setformat() {
  WaveReader *r = vf_array<WaveReader>(1);
  r->ready_ = vf_any<bool>(); bool was = r->ready_;
  ce_wave_format_t f; f.num_channels = vf_any<int>(); f.sample_rate = vf_any<int>(); f.bits_per_sample = vf_any<int>();
  r->format_.num_channels = 1; r->format_.sample_rate = 16000; int b0 = vf_any<int>(); r->format_.bits_per_sample = b0;
  bool good = (f.num_channels == 1) & (f.sample_rate == 16000) & ((f.bits_per_sample == 8) | (f.bits_per_sample == 16) | (f.bits_per_sample == 32));
  vf_cover("pre");
  Status st = r->SetFormat(f);
  vf_assert((st.code_ == 0) == good, "accepted exactly for mono, 16 kHz, 8, 16 or 32 bits");
  if (good) vf_assert(r->ready_ && r->format_.bits_per_sample == f.bits_per_sample, "ready for that width");
  else vf_assert(r->ready_ == was && r->format_.bits_per_sample == b0, "a rejected format changes nothing");
}
// ---- ReadableFile::Read and ReadAndVerifyString themselves
#include "util.cc"
static char *gDst; static char *gText; static long gTextN;
extern "C" unsigned long SC_fread(void *p, unsigned long size, unsigned long n, FILE *f) {
  vf_assert(f == gFd->fd_, "a read of this file");
  if (!gDst) { gDst = (char *)p; gBulkN = vf_count(gDst); }
  vf_assert(p == (void *)gDst, "into the buffer");
  if (size == 0 || n == 0) return 0;
  long total = size * n, q = gPos;
  char *d = gDst, *B = gByte;
  if (gPos + total > gLen) { gPos = gLen; vf_havoc_array_(d); unsigned long r = vf_any<unsigned long>(); vf_assume(r < n); return r; }
  vf_assert(total <= gBulkN, "inside the buffer");
  char *d0 = vf_snapshot(d); long N = gBulkN;
  vf_havoc_array_(d);
  vf_assume(vf_forall(0, total, [=](long i) -> bool { return d[i] == B[q + i]; }));
  vf_assume(vf_forall(total, N, [=](long i) -> bool { return d[i] == d0[i]; }));
  gPos += total;
  return n;
}
extern "C" void H_read() {
  File *f = any_file(); long p = gPos;
  int n = vf_any<int>(); vf_assume(n >= 0);
  gBulkN = vf_any<int>(); vf_assume(gBulkN >= n && gBulkN > 0); gDst = vf_array<char>(gBulkN); vf_touch_(gDst, 'b');
  char *d0 = vf_snapshot(gDst);
  vf_cover("pre");
  Status st = f->Read(gDst, n);
  vf_assert((st.code_ == 0) == (p + n <= gLen), "success exactly when there are that many bytes");
  if (st.code_ == 0) {
    vf_cover("read");
    vf_assert(gPos == p + n, "the position advances by the size");
    long i = vf_any<int>(); vf_assume(0 <= i && i < gBulkN);
    vf_assert(gDst[i] == (i < n ? gByte[p + i] : d0[i]), "exactly these bytes are stored");
  }
}

extern "C" unsigned long SC_strsize(void *s) { return gTextN; }
extern "C" bool SC_strne(void *s, const char *t) {     // comparison with a C string: same characters, then the end
  char *X = gText; bool r = vf_any<bool>(); long n = gTextN;
  vf_assume(r == !((t[n] == 0) & vf_forall(0, n, [=](long i) -> bool { return t[i] == X[i]; })));
  return r;
}
extern "C" void H_verify() {
  File *f = any_file(); long p = gPos;
  long n = gTextN = vf_any<int>(); vf_assume((n > 0) & (n < 1000000000));
  char *X = gText = vf_array<char>(n), *B = gByte; vf_touch_(gText, 'b');
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return X[i] != 0; }));
  std::string *s = vf_array<std::string>(1); gDst = nullptr;
  long i = vf_any<int>(); vf_assume(0 <= i && i < n);
  bool all = vf_forall(0, n, [=](long j) -> bool { return B[p + j] == X[j]; });
  vf_cover("pre");
  Status st = f->ReadAndVerifyString(*s);
  vf_assert(!(st.code_ == 0) || (p + n <= gLen && gPos == p + n && gByte[p + i] == gText[i]), "success only when the text is there; the position is behind it");
  vf_assert(st.code_ == 0 || !(all & (p + n <= gLen)), "success when the text is there");
}
// ---- WaveReader::Process
// contracts of std::vector<char>::insert and erase, Vector::Resize
static std::vector<char> *gBuf;
extern "C" void *SC_insert(std::vector<char> *v, char *pos, const char *b, const char *e) {
  vf_assert(v == gBuf, "the buffer of the reader");
  char *A = v->data(); long n = v->size(), k = pos - A, m = e - b;
  vf_assert((0 <= k) & (k <= n) & (m >= 0), "a place in the buffer, a range");
  char *B = vf_array<char>(n + m); vf_touch_(B, 'b');
  vf_assume(vf_forall(0, k, [=](long i) -> bool { return B[i] == A[i]; }));
  vf_assume(vf_forall(0, m, [=](long i) -> bool { return B[k + i] == b[i]; }));
  vf_assume(vf_forall(k, n, [=](long i) -> bool { return B[m + i] == A[i]; }));
  vf_set_vector(*v, B, n + m);
  return B + k;
}
extern "C" void *SC_erase(std::vector<char> *v, char *first, char *last) {
  vf_assert(v == gBuf, "the buffer of the reader");
  char *A = v->data(); long n = v->size(), k = first - A, l = last - A;
  vf_assert((0 <= k) & (k <= l) & (l <= n), "a range of the buffer");
  char *B = vf_array<char>(n - (l - k)); vf_touch_(B, 'b');
  vf_assume(vf_forall(0, k, [=](long i) -> bool { return B[i] == A[i]; }));
  vf_assume(vf_forall(k, n - (l - k), [=](long i) -> bool { return B[i] == A[i + (l - k)]; }));
  vf_set_vector(*v, B, n - (l - k));
  return B + k;
}
static Vector<float> *gPcm; static bool gResized;
extern "C" void SC_presize(Vector<float> *v, int d, int type) {
  vf_assert(v == gPcm && d >= 0, "the result");
  v->data_ = vf_array<float>(d); vf_touch_(v->data_, 'f'); v->dim_ = d; gResized = true;
}
static int ubyte(char c) { int x = c; return x < 0 ? x + 256 : x; }
// S is the sequence of bytes not yet decoded: those kept by the reader, then those of this call
#define PROCESS(BITS, W, VALUE) \
  WaveReader *r = vf_array<WaveReader>(1); gBuf = &r->buffer_; \
  long n0 = vf_any<int>(); vf_assume((0 <= n0) & (n0 < 1000000000)); \
  char *A = vf_array<char>(n0); vf_touch_(A, 'b'); vf_set_vector(r->buffer_, A, n0); \
  r->ready_ = true; r->format_.num_channels = 1; r->format_.sample_rate = 16000; r->format_.bits_per_sample = BITS; \
  int m = vf_any<int>(); vf_assume((0 < m) & (m < 1000000000)); \
  char *in = vf_array<char>(m); vf_touch_(in, 'b'); \
  char *S = vf_array<char>(n0 + m); vf_touch_(S, 'b'); \
  vf_assume(vf_forall(0, n0, [=](long i) -> bool { return S[i] == A[i]; })); \
  vf_assume(vf_forall(0, m, [=](long i) -> bool { return S[n0 + i] == in[i]; })); \
  gPcm = vf_array<Vector<float> >(1); gPcm->data_ = nullptr; gPcm->dim_ = 0; gResized = false; \
  vf_cover("pre"); \
  Status st = r->Process(in, m, gPcm); \
  long num = (n0 + m) / W; \
  vf_assert(st.code_ == 0 && gResized && gPcm->dim_ == num, "exactly the samples completed so far"); \
  long i = vf_any<int>(); \
  if ((0 <= i) & (i < num)) { vf_cover("sample"); vf_assert(gPcm->data_[i] == (float)(VALUE), "each sample is decoded from its own bytes"); } \
  vf_assert((long)r->buffer_.size() == n0 + m - num * W, "the bytes of the incomplete sample are kept"); \
  long j = vf_any<int>(); \
  if ((0 <= j) & (j < n0 + m - num * W)) { vf_assert(r->buffer_.data()[j] == S[num * W + j], "unchanged"); } \
  vf_assert(r->ready_ && r->format_.bits_per_sample == BITS, "the reader stays ready");
extern "C" void H_pcm8() { PROCESS(8, 1, ubyte(S[i]) - 128) }
extern "C" void H_pcm16() { PROCESS(16, 2, (int)S[2 * i + 1] * 256 + ubyte(S[2 * i])) }
extern "C" void H_pcm32() { PROCESS(32, 4, (long)S[4 * i + 3] * 16777216 + ubyte(S[4 * i + 2]) * 65536 + ubyte(S[4 * i + 1]) * 256 + ubyte(S[4 * i])) }
extern "C" void H_pcmbad() {
  WaveReader *r = vf_array<WaveReader>(1); gBuf = &r->buffer_;
  long n0 = vf_any<int>(); vf_assume((0 <= n0) & (n0 < 1000000000));
  char *A = vf_array<char>(n0); vf_touch_(A, 'b'); vf_set_vector(r->buffer_, A, n0);
  bool ready = r->ready_ = vf_any<bool>(), null = vf_any<bool>(); int m = vf_any<int>();
  char *in = null ? nullptr : vf_array<char>(m > 0 ? m : 0);
  vf_assume(null | (m <= 0) | !ready);
  gPcm = vf_array<Vector<float> >(1); gPcm->data_ = nullptr; gPcm->dim_ = 0; gResized = false;
  vf_cover("pre");
  Status st = r->Process(in, m, gPcm);
  vf_assert(st.code_ != 0, "bad arguments or a reader without format give an error");
  vf_assert(r->buffer_.data() == A && (long)r->buffer_.size() == n0 && r->ready_ == ready && !gResized, "the stream is not disturbed");
}
extern "C" void H_pcmreset() {
  WaveReader *r = vf_array<WaveReader>(1);
  long n0 = vf_any<int>(); vf_assume((0 <= n0) & (n0 < 1000000000));
  char *A = vf_array<char>(n0); vf_touch_(A, 'b'); vf_set_vector(r->buffer_, A, n0); r->ready_ = true; r->format_.bits_per_sample = 16;
  vf_cover("pre");
  r->Reset();
  vf_assert(r->buffer_.size() == 0 && r->ready_ && r->format_.bits_per_sample == 16, "the next stream starts without bytes of the last one");
}
