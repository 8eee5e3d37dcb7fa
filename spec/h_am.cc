// vf-link: vector.cc matrix.cc nnet.cc
#include "vfstd.h"
#include "am.cc"
#include "vfvec.h"
// The stream: X holds the T frames of the stream, D values each. Padded position p is frame p - L, the first and the
// last frame being repeated beyond the ends. The queue of the instance holds the padded positions [gH, gTail).
static float *gX; static long gT, gD, gL, gR, gC, gH, gTail, gTailMax; static std::deque<Vector<float> > *gDq;
static long pos(long p) { long f = p - gL; return f < 0 ? 0 : f >= gT ? gT - 1 : f; }
static Vector<float> *gView;
static Vector<float> *view(long p) { gView->data_ = gX + pos(p) * gD; gView->dim_ = gD; return gView; }
// contracts of std::deque
extern "C" void SC_emplace(std::deque<Vector<float> > *q, Vector<float> *v) {
  vf_assert(q == gDq && gTail < gTailMax, "a position of the padded stream");
  vf_assert(v->dim_ == gD, "a frame of this dimension");
  long c = vf_any<int>(); vf_assume(0 <= c && c < gD);
  vf_assert(v->data_[c] == gX[pos(gTail) * gD + c], "the frame that belongs to the next position");
  v->data_ = nullptr; v->dim_ = 0;
  ++gTail;
}
extern "C" unsigned long SC_size(const std::deque<Vector<float> > *q) { vf_assert(q == gDq, "this instance"); return gTail - gH; }
extern "C" bool SC_empty(const std::deque<Vector<float> > *q) { vf_assert(q == gDq, "this instance"); return gTail == gH; }
extern "C" Vector<float> *SC_at(std::deque<Vector<float> > *q, unsigned long i) {
  vf_assert(q == gDq && (long)i >= 0 && (long)i < gTail - gH, "an element of the queue"); return view(gH + i);
}
extern "C" Vector<float> *SC_back(std::deque<Vector<float> > *q) { vf_assert(q == gDq && gTail > gH, "a queue with elements"); return view(gTail - 1); }
extern "C" void SC_pop(std::deque<Vector<float> > *q) { vf_assert(q == gDq && gTail > gH, "a queue with elements"); ++gH; }
// contracts of Vector and Matrix Resize
extern "C" void SC_vresize(Vector<float> *v, int d, int type) {
  vf_assert(d >= 0 && v->data_ == nullptr, "a new vector");
  if (d == 0) return;
  v->data_ = vf_array<float>(d); vf_touch_(v->data_, 'f'); v->dim_ = d;
}
static void fresh(Matrix<float> *m, long r, long c) {
  if (r == 0) { m->data_ = nullptr; m->num_rows_ = m->num_cols_ = m->stride_ = 0; return; }
  vf_assert(r > 0 && c > 0, "a positive shape");
  int S = vf_any<int>(); vf_assume(S >= c && r * S < 1000000000);
  m->data_ = vf_array<float>(r * S); vf_touch_(m->data_, 'f');
  m->num_rows_ = r; m->num_cols_ = c; m->stride_ = S;
}
static Matrix<float> *gOut, *gIn; static long gRow, gCol;
extern "C" void SC_resize(Matrix<float> *m, int r, int c, int type, int stride) {
  vf_assert(m == gOut || m->data_ == nullptr, "a new matrix or the result");
  if (m == gOut) vf_assert(r == 0, "the result is emptied");
  else gIn = m;
  fresh(m, r, c);
}
extern "C" void SC_mdtor(Matrix<float> *m) { m->data_ = nullptr; }
// contract of Nnet::Propagate for a network with receptive field L + 1 + R: row r of the output is a function of the
// rows r .. r + L + R of the input. gY is that function's value for frame gQ, pdf gPdf.
static Nnet *gNet; static long gQ, gPdf, gPdfs; static float gY; static bool gUsed;
extern "C" void SC_propagate(const Nnet *n, const MatrixBase<float> *in, Matrix<float> *out) {
  vf_assert(n == gNet && out == gOut && !gUsed, "the network, once");
  vf_assert(in->num_cols_ == gD && in->num_rows_ > gL + gR && gH + in->num_rows_ <= gTail, "whole windows of buffered frames");
  long i = gRow, c = gCol; vf_assume(0 <= i && i < in->num_rows_ && 0 <= c && c < gD);
  vf_assert(in->data_[i * in->stride_ + c] == gX[pos(gH + i) * gD + c], "row i is the i-th buffered frame");
  fresh(out, in->num_rows_ - gL - gR, gPdfs);
  long q = gQ - gH;
  vf_assume(row_order(q, out->num_rows_, out->stride_));
  vf_assume(!(q >= 0 && q < out->num_rows_) || out->data_[q * out->stride_ + gPdf] == gY);
  gUsed = true;
}
static AcousticModel *am() {
  AcousticModel *m = vf_array<AcousticModel>(1);
  int L = vf_any<int>(), R = vf_any<int>(), C = vf_any<int>(), D = vf_any<int>(), P = vf_any<int>(), T = vf_any<int>();
  vf_assume(L >= 0 && R >= 0 && C >= 1 && D >= 1 && P >= 1 && L < 1000000 && R < 1000000 && C < 1000000 && D < 100000 && T >= 1 && T < 100000000);
  gL = L; gR = R; gC = C; gD = D; gPdfs = P; gT = T;
  long N = vf_any<long>(); vf_assume(N < 1000000000000L && (long)T * D <= N);
  gX = vf_array<float>(N); vf_touch_(gX, 'f');
  m->left_context_ = L; m->right_context_ = R; m->chunk_size_ = C; m->num_pdfs_ = P;
  m->log_prior_.data_ = vf_array<float>(P); vf_touch_(m->log_prior_.data_, 'f'); m->log_prior_.dim_ = P;
  gNet = &m->nnet_; gUsed = false;
  gView = vf_array<Vector<float> >(1);
  gOut = vf_array<Matrix<float> >(1); gOut->data_ = nullptr; gOut->num_rows_ = gOut->num_cols_ = gOut->stride_ = 0;
  gQ = vf_any<int>(); gPdf = vf_any<int>(); gY = vf_any<float>();
  vf_assume(0 <= gPdf && gPdf < P);
  return m;
}
static AcousticModel::Instance *instance(long t) {
  AcousticModel::Instance *s = vf_array<AcousticModel::Instance>(1);
  s->started = t > 0; gDq = &s->feats_buffer;
  // t frames have arrived, the rows of the first h have been returned, and no whole batch is left
  long h = vf_any<int>();
  gH = h; gTail = t > 0 ? t + gL : 0; gTailMax = gTail;
  vf_assume(t > 0 ? h >= 0 && (h == 0 || h <= t - gR) && t - h < gR + gC : h == 0);
  return s;
}
// (the closures live in the frame of the harness)
#define INVARIANTS \
  long Q = q, PDF = pdf, I = gRow, CC = gCol; Matrix<float> *O = gOut; float x = gX[pos(h + I) * D + CC], Y = y, Z = z; \
  gIn = nullptr; \
  vf_inv("input row arithmetic", [=](long r) -> bool { return gIn == nullptr || row_order(I, r, gIn->stride_); }); \
  vf_inv("input rows so far", [=](long r) -> bool { return gIn == nullptr || !(I < r) || gIn->data_[I * gIn->stride_ + CC] == x; }); \
  vf_inv("row arithmetic", [=](long r) -> bool { return row_order(Q, r, O->stride_); }); \
  vf_inv("rows so far", [=](long r) -> bool { return O->data_ == nullptr || O->data_[Q * O->stride_ + PDF] == (Q < r ? Y - Z : Y); });
extern "C" void H_amprocess() {
  AcousticModel *m = am(); long t = vf_any<int>(); vf_assume(t >= 0 && t < gT);
  AcousticModel::Instance *s = instance(t);
  long h = gH, tail = gTail, L = gL, R = gR, C = gC, D = gD; gTailMax = t + 1 + gL;
  Vector<float> *f = vf_array<Vector<float> >(1); f->data_ = gX + t * gD; f->dim_ = gD;
  float y = gY, z = m->log_prior_.data_[gPdf]; long q = gQ - h, pdf = gPdf; Matrix<float> *out = gOut;
  gRow = vf_any<int>(); gCol = vf_any<int>(); vf_assume(0 <= gRow && gRow < L + R + C && 0 <= gCol && gCol < D);
  vf_assume(q >= 0 && q < C);
  INVARIANTS
  vf_cover("pre");
  m->Process(s, *f, gOut);
  vf_inv_clear();
  vf_assert(s->started && gTail == t + 1 + L, "every frame takes its position");
  long got = gH - h;
  vf_assert(out->num_rows_ == got && (got == 0 || got == C), "nothing or one chunk is returned");
  vf_assert(t + 1 - gH < R + C && (gH == 0 || gH <= t + 1 - R), "as soon as its right context is complete");
  if (got > 0) vf_assert(out->num_cols_ == gPdfs && out->data_[q * out->stride_ + pdf] == y - z, "each row is the network's output for its frame minus the prior");
}
extern "C" void H_amend() {
  AcousticModel *m = am(); long t = gT; bool none = vf_any<bool>();
  AcousticModel::Instance *s = instance(none ? 0 : t);
  long h = gH, L = gL, R = gR, C = gC, D = gD; gTailMax = gTail + gR;
  float y = gY, z = m->log_prior_.data_[gPdf]; long q = gQ - h, pdf = gPdf;
  long left = none ? 0 : t - h;
  gRow = vf_any<int>(); gCol = vf_any<int>(); vf_assume(0 <= gRow && gRow < L + R + left && 0 <= gCol && gCol < D);
  vf_assume(q >= 0 && (left <= 0 || q < left));
  INVARIANTS
  vf_cover("pre");
  m->EndOfStream(s, gOut);
  vf_inv_clear();
  vf_assert(left >= 0 && gOut->num_rows_ == left, "one row for every frame not yet returned");
  if (left > 0) vf_assert(gOut->num_cols_ == gPdfs && gOut->data_[q * gOut->stride_ + pdf] == y - z, "each row is the network's output for its frame minus the prior");
}
