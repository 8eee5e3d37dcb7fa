// vf-link: vector.cc matrix.cc
#include "vfstd.h"
#include <math.h>
#include "nnet.cc"
#include "vfvec.h"
extern "C" { double sqrt(double); }
// One arbitrary element (r, c) of the output. in: the input view; out: the output matrix, in any state.
// Contracts of the matrix operations (proved in h_vector.cc, h_matrix.cc, h_resize.cc) at their call sites; they say what
// happens to row r (all columns) of the output.
static MW<float> gIn; static Matrix<float> *gOut; static long gr, gc;
static float *gG;          // result of the row operation on the input row r
static float gS;           // dot product of the input row r with itself
static float gM;           // element (r, c) of the matrix product
static MW<float> gW;
static void setup() {
  any_mat(gIn);
  gOut = vf_array<Matrix<float> >(1);
  int a = vf_any<int>(), b = vf_any<int>(), s = vf_any<int>(); vf_assume(a > 0 && b > 0 && s >= b && (long)a * s < 100000000);
  gOut->data_ = vf_array<float>((long)a * s); vf_touch_(gOut->data_, 'f');
  gOut->num_rows_ = a; gOut->num_cols_ = b; gOut->stride_ = s;
  gr = vf_any<int>(); gc = vf_any<int>();
  vf_assume(gr >= 0 && gc >= 0);
}
extern "C" void SC_resize(Matrix<float> *m, int r, int c, int type, int stride) {
  vf_assert(m == gOut, "the output is resized");
  vf_assert(r > 0 && c > 0, "a positive shape");
  int S = vf_any<int>(); vf_assume(S >= c && (long)r * S < 100000000);
  m->data_ = vf_array<float>((long)r * S); vf_touch_(m->data_, 'f');
  m->num_rows_ = r; m->num_cols_ = c; m->stride_ = S;
  vf_assume(row_order(gr, r, S));
}
extern "C" void SC_copy(MatrixBase<float> *m, const MatrixBase<float> *s, int trans) {
  vf_assert(m == gOut, "the output is written");
  vf_assert(trans == MatrixBase<float>::kNoTrans && m->num_rows_ == s->num_rows_ && m->num_cols_ == s->num_cols_, "shapes agree");
  float *A = m->data_; const float *B = s->data_; long ra = gr * m->stride_, rb = gr * s->stride_, C = m->num_cols_, R = m->num_rows_;
  vf_havoc_array_(A);
  vf_assume(gr >= R || vf_forall(0, C, [=](long i) -> bool { return A[ra + i] == B[rb + i]; }));
}
static bool row_is_input() {
  const float *A = gOut->data_, *B = gIn.old; long ra = gr * gOut->stride_, rb = gIn.off + gr * gIn.S;
  return vf_forall(0, gIn.C, [=](long i) -> bool { return A[ra + i] == B[rb + i]; });
}
static bool hits(const VectorBase<float> *v) {
  long d = v->data_ - gOut->data_, ra = gr * gOut->stride_;
  vf_assert(d == ra || d + v->dim_ <= ra || d >= ra + gIn.C, "rows do not overlap");
  vf_assert(d != ra || v->dim_ == gIn.C, "a whole row");
  return d == ra;
}
extern "C" void SC_rowop(VectorBase<float> *v) {
  bool hit = hits(v);
  if (hit) vf_assert(row_is_input(), "the row operation is applied to the input row, once");
  float *A = gOut->data_; long ra = gr * gOut->stride_; float *old = vf_snapshot(A), *G = gG;
  vf_havoc_array_(A);
  vf_assume(vf_forall(0, gIn.C, [=](long i) -> bool { return A[ra + i] == (hit ? G[i] : old[ra + i]); }));
}
extern "C" float SC_dot(const VectorBase<float> *v, const VectorBase<float> *u) {
  vf_assert(v->data_ == u->data_ && v->dim_ == u->dim_, "the row with itself");
  bool hit = hits(v);
  if (hit) vf_assert(row_is_input(), "the norm is that of the input row");
  float s = vf_any<float>();
  return hit ? gS : s;
}
extern "C" void SC_matmat(const MatrixBase<float> *a, const MatrixBase<float> *b, MatrixBase<float> *c) {
  vf_assert(a->data_ == gIn.A + gIn.off && a->num_rows_ == gIn.R && a->num_cols_ == gIn.C && a->stride_ == gIn.S, "the left operand is the input");
  vf_assert(b->data_ == gW.A + gW.off && b->num_rows_ == gW.R && b->num_cols_ == gW.C && b->stride_ == gW.S, "the right operand is W");
  vf_assert(c == gOut && c->num_rows_ == gIn.R && c->num_cols_ == gW.C, "the result has the shape of the product");
  float *A = c->data_; long e = gr * c->stride_ + gc;
  vf_havoc_array_(A);
  vf_assume(A[e] == gM);
}
#define ELEMENT(EXPECT) \
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(gr, k, gOut->stride_); }); \
  vf_inv("rows so far", [=](long k) -> bool { float x = gOut->data_[gr * gOut->stride_ + gc]; return gr < k ? x == (EXPECT) : x == x0; });
#define CHECK(R, C, EXPECT, WHAT) \
  vf_inv_clear(); \
  vf_assert(gOut->num_rows_ == (R) && gOut->num_cols_ == (C), "shape of the output"); \
  vf_assert(gOut->data_[gr * gOut->stride_ + gc] == (EXPECT), WHAT); \
  { long xi = vf_any<int>(); vf_assume(xi >= 0 && xi < gIn.N); vf_assert(gIn.A[xi] == gIn.old[xi], "the input is unchanged"); }
extern "C" {
void H_relu() {
  setup(); vf_assume(gr < gIn.R && gc < gIn.C);
  ReLULayer *l = vf_array<ReLULayer>(1);
  float x0 = gIn.A[gIn.off + gr * gIn.S + gc], want = x0 < 0 ? 0 : x0;
  ELEMENT(want)
  vf_cover("pre");
  l->ReLULayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, gIn.C, want, "ReLU: max(x, 0)")
}
void H_batchnorm() {
  setup(); vf_assume(gr < gIn.R && gc < gIn.C);
  BatchNormLayer *l = vf_array<BatchNormLayer>(1);
  VW<float> s, b; any_vec(s); any_vec(b); vf_assume(s.n == gIn.C && b.n == gIn.C);
  l->scale_.data_ = s.A + s.off; l->scale_.dim_ = s.n; l->offset_.data_ = b.A + b.off; l->offset_.dim_ = b.n;
  float x0 = gIn.A[gIn.off + gr * gIn.S + gc], want = x0 * s.A[s.off + gc] + b.A[b.off + gc];
  ELEMENT(want)
  vf_cover("pre");
  l->BatchNormLayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, gIn.C, want, "BatchNorm: x * scale + offset")
}
void H_linear() {
  setup(); any_mat(gW);
  vf_assume(gW.R == gIn.C && gr < gIn.R && gc < gW.C);
  LinearLayer *l = vf_array<LinearLayer>(1);
  VW<float> b; any_vec(b); vf_assume(b.n == gW.C);
  l->W_.data_ = gW.A + gW.off; l->W_.num_rows_ = gW.R; l->W_.num_cols_ = gW.C; l->W_.stride_ = gW.S; l->b_.data_ = b.A + b.off; l->b_.dim_ = b.n;
  gM = vf_any<float>();
  float x0 = gM, want = gM + b.A[b.off + gc];
  ELEMENT(want)
  vf_cover("pre");
  l->LinearLayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, gW.C, want, "Linear: x W + b")
}
void H_narrow() {
  setup();
  NarrowLayer *l = vf_array<NarrowLayer>(1);
  int L = vf_any<int>(), R = vf_any<int>(); vf_assume(L >= 0 && R >= 0 && L + R >= 0);
  l->narrow_left_ = L; l->narrow_right_ = R;
  long rows = gIn.R <= (long)L + R ? gIn.R : gIn.R - (long)L - R, first = gIn.R <= (long)L + R ? 0 : L;
  vf_assume(gr < rows && gc < gIn.C);
  vf_cover("pre");
  l->NarrowLayer::Propagate(*gIn.m, gOut);
  CHECK(rows, gIn.C, gIn.old[gIn.off + (first + gr) * gIn.S + gc], "Narrow: the rows left over")
}
#define ROWOP(DONE) \
  gG = vf_array<float>(gIn.C); vf_touch_(gG, 'f'); const float *G = gG, *B = gIn.old; const long C = gIn.C, rb = gIn.off + gr * gIn.S; \
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(gr, k, gOut->stride_); }); \
  vf_inv("rows so far", [=](long k) -> bool { const float *A = gOut->data_; long ra = gr * gOut->stride_; return vf_forall(0, C, [=](long i) -> bool { return A[ra + i] == (gr < k ? DONE : B[rb + i]); }); });
void H_softmaxl() {
  setup(); vf_assume(gr < gIn.R && gc < gIn.C);
  SoftmaxLayer *l = vf_array<SoftmaxLayer>(1);
  ROWOP(G[i])
  vf_cover("pre");
  l->SoftmaxLayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, gIn.C, gG[gc], "Softmax: softmax of the row")
}
void H_logsoftmaxl() {
  setup(); vf_assume(gr < gIn.R && gc < gIn.C);
  LogSoftmaxLayer *l = vf_array<LogSoftmaxLayer>(1);
  ROWOP(G[i])
  vf_cover("pre");
  l->LogSoftmaxLayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, gIn.C, gG[gc], "LogSoftmax: log-softmax of the row")
}
void H_normalizel() {
  setup(); vf_assume(gr < gIn.R && gc < gIn.C);
  NormalizeLayer *l = vf_array<NormalizeLayer>(1);
  gS = vf_any<float>(); vf_assume(gS > 0);
  float f = (float)sqrt((double)(float)gIn.C / (double)gS);
  ROWOP(B[rb + i] * f)
  vf_cover("pre");
  l->NormalizeLayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, gIn.C, gIn.old[rb + gc] * f, "Normalize: x * sqrt(D / sum of squares)")
}
void H_splice() {
  setup();
  SpliceLayer *l = vf_array<SpliceLayer>(1);
  int n = vf_any<int>(); vf_assume(n > 0 && (long)n * gIn.C < 100000000);
  int *I = vf_array<int>(n); vf_touch_(I, 'i');
  vf_set_vector(l->indices_, I, n);
  long q = vf_any<int>(), j = vf_any<int>(); vf_assume(q >= 0 && q < n && j >= 0 && j < gIn.C);
  gc = q * gIn.C + j;
  vf_assume(gr < gIn.R);
  long row = gr + I[q]; row = row < 0 ? 0 : row > gIn.R - 1 ? gIn.R - 1 : row;
  float want = gIn.old[gIn.off + row * gIn.S + j]; const long C = gIn.C, gcc = gc;
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(gr, k, gOut->stride_) & row_order(q, k, C); });
  vf_inv("rows so far", [=](long k) -> bool { float x = gOut->data_[gr * gOut->stride_ + gcc]; return (!(gr < k)) | (x == want); });
  vf_inv_o("blocks so far", [=](long b, long k) -> bool { float x = gOut->data_[gr * gOut->stride_ + gcc]; return (!((gr < k) | ((gr == k) & (q < b)))) | (x == want); });
  vf_cover("pre");
  l->SpliceLayer::Propagate(*gIn.m, gOut);
  CHECK(gIn.R, n * gIn.C, want, "Splice: the row at the offset, edges repeated")
}
}
// ---- composition: any number of layers of any kind, each known only by this contract: it reads the matrix the previous one
// wrote and writes a new one (new shape, new values, anywhere in the heap, which is one array here)
struct SpecLayer : Layer {
  void Propagate(const MatrixBase<float> &in, Matrix<float> *out) const override;
  Status Read(util::ReadableFile *fd) override { return Status::OK(); }
  std::string Type() const override { return ""; }
};
static SpecLayer *gL; static float *gHeap; static long gNext, gOff, gR2, gC2, gS2, gEr, gEc; static float gV; static Matrix<float> *gCur; static bool gDone;
static bool current(const MatrixBase<float> *m) {
  return (m->data_ - gHeap == gOff) & (m->num_rows_ == gR2) & (m->num_cols_ == gC2) & (m->stride_ == gS2);
}
static bool value_kept() { return gHeap[gOff + gEr * gS2 + gEc] == gV; }
static void new_value(Matrix<float> *m, bool shape) {
  long off = vf_any<int>(); int r = vf_any<int>(), c = vf_any<int>(), s = vf_any<int>();
  if (!shape) { off = m->data_ - gHeap; r = m->num_rows_; c = m->num_cols_; s = m->stride_; }
  else { vf_assume(off >= 0 && r > 0 && c > 0 && s >= c); m->data_ = gHeap + off; m->num_rows_ = r; m->num_cols_ = c; m->stride_ = s; }
  gOff = off; gR2 = r; gC2 = c; gS2 = s;
  long er = vf_any<int>(), ec = vf_any<int>();
  vf_assume(0 <= er && er < r && 0 <= ec && ec < c && off + er * s + ec < 400000000);
  vf_havoc_array_(gHeap);
  gEr = er; gEc = ec; gV = gHeap[off + er * s + ec];
}
void SpecLayer::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
  vf_assert(this == gL + gNext, "layers are applied in order, each once");
  vf_assert(gCur != nullptr && current(&in) && value_kept(), "a layer reads what the previous one wrote");
  vf_assert((const MatrixBase<float> *)out != &in && out != gOut, "the output is another matrix");
  new_value(out, true);
  gNext++;
}
extern "C" void SN_dtor(Matrix<float> *m) {}
extern "C" void SN_resize(Matrix<float> *m, int r, int c, int type, int stride) {
  vf_assert(r > 0 && c > 0, "a positive shape");
  long off = vf_any<int>(); int s = vf_any<int>(); vf_assume(off >= 0 && s >= c);
  m->data_ = gHeap + off; m->num_rows_ = r; m->num_cols_ = c; m->stride_ = s;
  if (m != gOut) gCur = m;
}
extern "C" void SN_copy(MatrixBase<float> *m, const MatrixBase<float> *s, int trans) {
  vf_assert(trans == MatrixBase<float>::kNoTrans && m->num_rows_ == s->num_rows_ && m->num_cols_ == s->num_cols_, "shapes agree");
  if (s == gIn.m) {
    vf_assert(m == gCur && gNext == 0, "the input is copied first");
    vf_assert(s->data_ == gIn.A + gIn.off && s->num_rows_ == gIn.R && s->num_cols_ == gIn.C && s->stride_ == gIn.S, "the whole input");
    new_value((Matrix<float> *)m, false);
  } else {
    vf_assert(m == gOut && s == gCur, "the result goes to the output");
    vf_assert(current(s) && value_kept(), "the result is what the last layer wrote");
    gDone = true;
  }
}
extern void *gSlVt[] asm("_ZTV9SpecLayer");
extern "C" void H_net() {
  setup();
  int n = vf_any<int>(); vf_assume(n >= 0 && n < 1000000);
  gL = vf_array<SpecLayer>(n); vf_constfield_(gL, gSlVt + 2);
  SpecLayer **P = vf_array<SpecLayer *>(n); vf_ptrfield_(P, gL);
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return P[i] == gL + i; }));
  { long hn = vf_any<long>(); vf_assume(hn == 400000000); gHeap = vf_heap<float>(hn); } vf_touch_(gHeap, 'f'); gNext = 0; gCur = nullptr; gDone = false;
  Nnet *net = vf_array<Nnet>(1);
  vf_set_vector(net->layers_, (std::unique_ptr<Layer> *)P, n);
  vf_inv("so many layers done", [=](long k) -> bool { return gNext == k; });
  vf_inv("the current matrix is the last output", [=](long k) -> bool { return current(gCur) & value_kept(); });
  vf_inv("in range", [=](long k) -> bool { return (gOff >= 0) & (gR2 > 0) & (gC2 > 0) & (gS2 >= gC2) & (0 <= gEr) & (gEr < gR2) & (0 <= gEc) & (gEc < gC2) & (gOff + gEr * gS2 + gEc < 400000000); });
  vf_cover("pre");
  net->Propagate(*gIn.m, gOut);
  vf_inv_clear();
  vf_assert(gNext == n && gDone, "every layer is applied");
  vf_assert(gOut->num_rows_ == gR2 && gOut->num_cols_ == gC2, "the output has the shape of the last layer's");
  long xi = vf_any<int>(); vf_assume(xi >= 0 && xi < gIn.N);
  vf_assert(gIn.A[xi] == gIn.old[xi], "the input is unchanged");
}
