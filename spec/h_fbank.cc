// vf-link: vector.cc matrix.cc
#include "vfstd.h"
#include <math.h>
#include <float.h>
#include "fbank.cc"
#include "vfvec.h"
extern "C" { double log(double); double cos(double); }
static const long SHIFT = 160, LEN = 400, DIM = 40;
static long frames(long n) { return n < LEN ? 0 : 1 + (n - LEN) / SHIFT; }
// contract of Vector<float>::Resize (proved in h_resize.cc)
extern "C" void SC_vresize(Vector<float> *v, int d, int type) {
  vf_assert(d >= 0, "a size");
  if (d == 0) { v->data_ = nullptr; v->dim_ = 0; return; }
  long nn = d;
  float *A = vf_array<float>(nn), *old = v->data_; vf_touch_(A, 'f');
  long n = v->dim_ < d ? v->dim_ : d;
  if (type == Vector<float>::kCopyData) { if (n > 0) vf_assume(vf_forall(0, n, [=](long i) -> bool { return A[i] == old[i]; })); }
  else if (type != Vector<float>::kUndefined) vf_assume(vf_forall(0, nn, [=](long i) -> bool { return A[i] == 0; }));
  v->data_ = A; v->dim_ = d;
}
// ---- the stream: X[0..N) are all samples ever; n of them arrived before this call, m arrive now
static float *gX; static long gN, gM, gF, gWin, gQ, gCol; static float gY; static Matrix<float> *gOut; static Vector<float> *gW, *gFeat;
extern "C" void SC_fresize(Matrix<float> *m, int r, int c, int type, int stride) {
  vf_assert(m == gOut, "the output is resized");
  if (r == 0) { m->data_ = nullptr; m->num_rows_ = m->num_cols_ = m->stride_ = 0; return; }
  vf_assert(r > 0 && c > 0, "a positive shape");
  int S = vf_any<int>(); vf_assume(S >= c && (long)r * S < 1000000000);
  m->data_ = vf_array<float>((long)r * S); vf_touch_(m->data_, 'f');
  m->num_rows_ = r; m->num_cols_ = c; m->stride_ = S;
}
// contract of ExtractWindow (proved by H_extract): the window then holds frame gWin of the stream
extern "C" void SC_extract(const Fbank *f, const VectorBase<float> *wave, int idx, const VectorBase<float> *wf, Vector<float> *window) {
  vf_assert(idx >= 0 && SHIFT * idx + LEN <= wave->dim_, "the samples of the frame have arrived");
  vf_assert(wf == &f->window_function_ && window->dim_ == 512, "the window function and the padded size");
  long j = vf_any<int>(); vf_assume(0 <= j && j < LEN);
  vf_assert(wave->data_[SHIFT * idx + j] == gX[SHIFT * (gF + idx) + j], "the samples of this very frame");
  gW = window; gWin = gF + idx;
}
// contract of ComputeFrame: the features of the frame in the window
extern "C" void SC_compute(const Fbank *f, Vector<float> *window, Vector<float> *feature, Vector<float> *buffer) {
  vf_assert(window == gW && gWin >= 0, "a window with a frame");
  vf_assert(feature->dim_ == DIM && buffer->dim_ >= 512 && buffer->data_ != window->data_, "room for the result");
  vf_havoc_array_(feature->data_);
  vf_assume(gWin != gQ || feature->data_[gCol] == gY);
  gWin = -1;
}
extern "C" void H_process() {
  long n = vf_any<int>(), m = vf_any<int>();
  vf_assume(n >= 0 && m >= 0 && n + m < 100000000);
  gN = n; gM = m; gF = frames(n);
  gX = vf_array<float>(n + m); vf_touch_(gX, 'f');
  Fbank *fb = vf_array<Fbank>(1); fb->frame_length_padded_ = 512;
  Fbank::Instance *inst = vf_array<Fbank::Instance>(1);
  long k = n - SHIFT * gF;                              // samples carried over
  inst->wave_buffer.dim_ = k; inst->wave_buffer.data_ = nullptr;
  float *X = gX; long F = gF;
  if (k > 0) {
    float *B = vf_array<float>(k); vf_touch_(B, 'f'); inst->wave_buffer.data_ = B;
    vf_assume(vf_forall(0, k, [=](long i) -> bool { return B[i] == X[SHIFT * F + i]; }));
  }
  gOut = vf_array<Matrix<float> >(1); gOut->data_ = nullptr; gOut->num_rows_ = gOut->num_cols_ = gOut->stride_ = 0;
  Vector<float> *w = vf_array<Vector<float> >(1); w->data_ = gX + n; w->dim_ = m;
  long F2 = frames(n + m);
  gQ = vf_any<int>(); gCol = vf_any<int>(); gY = vf_any<float>();
  vf_assume(gQ >= F && (F2 == F || gQ < F2) && 0 <= gCol && gCol < DIM);
  long q = gQ - F, c = gCol; float y = gY; Matrix<float> *out = gOut; gWin = -1;
  vf_inv("row arithmetic", [=](long r) -> bool { return row_order(q, r, out->stride_); });
  vf_inv("rows so far", [=](long r) -> bool { return (!(q < r)) | (out->data_[q * out->stride_ + c] == y); });
  vf_cover("pre");
  fb->Process(inst, *w, gOut);
  vf_inv_clear();
  vf_assert(gOut->num_rows_ == F2 - F, "exactly the newly completed frames are returned");
  if (F2 > F) vf_assert(gOut->num_cols_ == DIM && gOut->data_[q * gOut->stride_ + c] == y, "each in order, with its own features");
  long k2 = n + m - SHIFT * F2, i = vf_any<int>(); vf_assume(0 <= i && i < k2);
  vf_assert(inst->wave_buffer.dim_ == k2 && inst->wave_buffer.data_[i] == gX[SHIFT * F2 + i], "the samples not consumed are carried over");
}

// One frame: the window holds the frame's samples, zero padded; then ProcessWindow works on exactly the samples
static const float *gHam; static float *gWd, *gWx; static Vector<float> *gSub; static bool gDone;
extern "C" void SC_window(const Fbank *f, const VectorBase<float> *wf, VectorBase<float> *sub) {
  vf_assert(!gDone && wf->data_ == gHam && wf->dim_ == LEN && sub->data_ == gWd && sub->dim_ == LEN, "the samples, not the padding, are windowed");
  long j = vf_any<int>(); vf_assume(0 <= j && j < LEN);
  vf_assert(gWd[j] == gWx[j], "the samples of the frame");
  gDone = true;
}
extern "C" void H_extract() {
  VW<float> wave, win, wf; any_vec(wave); any_vec(win); any_vec(wf);
  int idx = vf_any<int>(); long D = win.n, j = vf_any<int>();
  vf_assume(idx >= 0 && idx < 600000 && idx * SHIFT + LEN <= wave.n && D >= LEN && wf.n == LEN);
  gWd = win.v->data_; gWx = wave.v->data_ + idx * SHIFT; gHam = wf.v->data_; gDone = false;
  Fbank *fb = vf_array<Fbank>(1);
  vf_cover("pre");
  fb->ExtractWindow(*wave.v, idx, *wf.v, (Vector<float> *)win.v);
  vf_assume(LEN <= j && j < D);
  vf_assert(gDone && gWd[j] == 0, "the padding is zero");
  unchanged(wave); unchanged(wf);
}
// for an arbitrary sample j: ((x_j - mean) - 0.97 (x_{j-1} - mean)) * w_j (sample 0 uses itself as its predecessor)
extern "C" void H_window() {
  VW<float> win, wf; any_vec(win); any_vec(wf);
  vf_assume(win.n == wf.n && win.n > 0);
  float *W = win.v->data_, *x = win.old + win.off, *H = wf.v->data_; long n = win.n;
  float sum = 0;
  for (int i = 0; i < win.n; ++i) sum += x[i];
  long j = vf_any<int>(); vf_assume(0 <= j && j < n);
  float mean = sum / (float)n, xj = x[j], xp = x[j > 0 ? j - 1 : 0], w = H[j];
  Fbank *fb = vf_array<Fbank>(1);
  vf_cover("pre");
  fb->ProcessWindow(*wf.v, win.v);
  vf_inv_clear();
  vf_assert(W[j] == ((xj - mean) - PK_PREEMPH_COEFF * (xp - mean)) * w, "mean removed, pre-emphasised, windowed");
  unchanged(wf);
}

// The power spectrum of a packed real transform [re0, reN/2, re1, im1, re2, im2, ...], in place
extern "C" void H_power() {
  VW<float> w; any_vec(w);
  vf_assume(w.n >= 4 && w.n % 2 == 0);
  float *W = w.v->data_, *O = w.old + w.off; long h = w.n / 2;
  long j = vf_any<int>(); vf_assume(0 <= j && j <= h);
  float want = j == 0 ? O[0] * O[0] : j == h ? O[1] * O[1] : O[2 * j] * O[2 * j] + O[2 * j + 1] * O[2 * j + 1];
  long n = w.n;
  vf_inv("energies so far", [=](long k) -> bool { return !((1 <= j) & (j < k + 1) & (j < h)) | (W[j] == want); });
  vf_inv("the rest still to come", [=](long k) -> bool { return vf_forall(k + 1, n, [=](long i) -> bool { return W[i] == O[i]; }); });
  Fbank *fb = vf_array<Fbank>(1);
  vf_cover("pre");
  fb->ComputePowerSpectrum((Vector<float> *)w.v);
  vf_inv_clear();
  vf_assert(W[j] == want, "the squared magnitude of every bin");
}

// Every filter takes the dot product of its own weights with the spectrum bins at its own offset
static Melbanks *gMel; static float *gP, *gE; static int gBins;
extern "C" float SC_vecvec(const VectorBase<float> *v, const VectorBase<float> *r) {
  for (int b = 0; b < 40; ++b) if (v == &gMel->bins_[b]) {
    vf_assert(r->data_ == gP + gMel->fftbin_offset_[b] && r->dim_ == v->dim_, "the bins under this filter");
    return gE[b];
  }
  vf_assert(false, "a filter of the bank");
  return 0;
}
extern "C" void H_mel() {
  Melbanks *m = vf_array<Melbanks>(1); gMel = m;
  VW<float> p, o; any_vec(p); any_vec(o);
  float *wts = vf_array<float>(vf_any<int>());
  for (int b = 0; b < 40; ++b) {
    int d = vf_any<int>(), f = vf_any<int>(); vf_assume(d >= 1 && f >= 0 && f + d <= p.n);
    m->bins_[b].data_ = wts; m->bins_[b].dim_ = d; m->fftbin_offset_[b] = f;
  }
  vf_assume(o.n == 40);
  gP = p.v->data_; gE = vf_array<float>(40); vf_touch_(gE, 'f');
  float *E = gE, *O = o.v->data_;
  vf_cover("pre");
  m->Compute(*(Vector<float> *)p.v, (Vector<float> *)o.v);
  long b = vf_any<int>(); vf_assume(0 <= b && b < 40);
  vf_assert(O[b] == E[b], "each energy in its own place");
  unchanged(p);
}

extern "C" void H_hamming() {
  Fbank *fb = vf_array<Fbank>(1);
  Vector<float> *w = vf_array<Vector<float> >(1); w->data_ = nullptr; w->dim_ = 0;
  long j = vf_any<int>(); vf_assume(0 <= j && j < LEN);
  float a = 6.28318530718 / 399; double want = 0.54 - 0.46 * cos(a * (float)j);
  vf_inv("weights so far", [=](long k) -> bool { return !(j < k) | (w->data_[j] == (float)want); });
  vf_cover("pre");
  fb->HammingWindowInit(w);
  vf_inv_clear();
  vf_assert(w->dim_ == LEN && w->data_[j] == (float)want, "0.54 - 0.46 cos(2 pi j / 399)");
}

// ComputeFrame: transform, power, filters, floor, logarithm, in this order and each on the right operand
static Vector<float> *gWi, *gFe; static int gStep;
extern "C" void SC_fft(const SRFFT *s, float *data, int n, bool fwd, float *buf, int bn) {
  vf_assert(gStep == 0 && data == gWi->data_ && n == gWi->dim_ && fwd && bn >= n, "a forward transform of the window"); gStep = 1;
}
extern "C" void SC_power(const Fbank *f, Vector<float> *w) { vf_assert(gStep == 1 && w == gWi, "the power spectrum of the transform"); gStep = 2; }
extern "C" void SC_mel(const Melbanks *m, const Vector<float> *p, Vector<float> *e) {
  vf_assert(gStep == 2 && p->data_ == gWi->data_ && p->dim_ >= gWi->dim_ / 2 + 1 && e == gFe, "the filters over the power spectrum"); gStep = 3;
}
extern "C" void H_frame() {
  Fbank *fb = vf_array<Fbank>(1); fb->frame_length_padded_ = 512;
  VW<float> w, f, b; any_vec(w); any_vec(f); any_vec(b);
  vf_assume(w.n == 512 && f.n == 40 && b.n >= 512);
  gWi = (Vector<float> *)w.v; gFe = (Vector<float> *)f.v; gStep = 0;
  vf_assume(f.v->data_ == f.A + f.off);
  long j = vf_any<int>(); vf_assume(0 <= j && j < 40);
  float e = f.v->data_[j], *F = f.v->data_;
  vf_assume(e >= 0);
  float fl = e < FLT_EPSILON ? FLT_EPSILON : e;
  vf_inv("floored so far", [=](long k) -> bool { return F[j] == (j < k ? fl : e); });
  vf_inv("logarithms so far", [=](long k) -> bool { return F[j] == (j < k ? logf(fl) : fl); });
  vf_cover("pre");
  fb->ComputeFrame(gWi, gFe, (Vector<float> *)b.v);
  vf_inv_clear();
  vf_assert(gStep == 3 && F[j] == logf(fl), "the logarithm of each energy floored at FLT_EPSILON");
}
