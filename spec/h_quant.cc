// vf-link: vector.cc
#include "vfstd.h"
#include <math.h>
#include "matrix.cc"
#include "vfvec.h"
static const float FMAX = 3.402823e38f;
static MW<float> gA; static float gMin, gMax; static bool gHaveMinMax;
extern "C" {
// the least and the greatest element: bounds of every element that no lower / higher bound of all elements beats
void H_minmax() {
  any_mat(gA, true);
  const float *A = gA.A + gA.off; long n = gA.R * gA.C;
  vf_assume(n < 100000000);
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return A[i] <= FMAX & A[i] >= -FMAX; }));
  float lo = vf_any<float>(), hi = vf_any<float>();
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return A[i] >= lo & A[i] <= hi; }));
  vf_inv_f("upper bound", [=](long k, float v) -> bool { return vf_forall(0, k, [=](long i) -> bool { return A[i] <= v; }); });
  vf_inv_f("lower bound", [=](long k, float v) -> bool { return vf_forall(0, k, [=](long i) -> bool { return A[i] >= v; }); });
  vf_inv_f("least upper bound", [=](long k, float v) -> bool { return k == 0 ? v < -FMAX : v <= hi; });
  vf_inv_f("greatest lower bound", [=](long k, float v) -> bool { return k == 0 ? v > FMAX : v >= lo; });
  float mn, mx;
  vf_cover("pre");
  FindMinMax(*gA.m, &mn, &mx);
  vf_inv_clear();
  long i = vf_any<int>(); vf_assume(0 <= i && i < n);
  vf_assert(mn <= A[i] && A[i] <= mx, "bounds of every element");
  vf_assert(lo <= mn && mx <= hi, "the tightest bounds");
}

// contract of FindMinMax
void SC_minmax(const MatrixBase<float> *m, float *pmin, float *pmax) {
  vf_assert(m->data_ == gA.A + gA.off && m->num_rows_ == gA.R && m->num_cols_ == gA.C, "the range of the source");
  *pmin = gMin; *pmax = gMax; 
}
// spread 0, or at least 1/500 of the largest magnitude
static void any_range() {
  const float *A = gA.A + gA.off; long n = gA.R * gA.C; float mn = vf_any<float>(), mx = vf_any<float>();
  vf_assume(mn <= mx && mn >= -FMAX && mx <= FMAX);
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return A[i] >= mn & A[i] <= mx; }));
  vf_assume(mn == mx || ((mx - mn) * 500 >= mx && (mx - mn) * 500 >= -mn));
  gMin = mn; gMax = mx;
}
// contract of Matrix<uint8_t>::Resize
static Matrix<uint8_t> *gD;
void SC_u8resize(Matrix<uint8_t> *m, int r, int c, int type, int stride) {
  vf_assert(m == gD && r == gA.R && c == gA.C, "the result has the shape of the source");
  m->data_ = vf_array<uint8_t>((long)r * c); vf_touch_(m->data_, 'b');
  m->num_rows_ = r; m->num_cols_ = c; m->stride_ = stride == Matrix<uint8_t>::kStrideEqualNumCols ? c : vf_any<int>();
}
void H_quantize() {
  any_mat(gA, true); vf_assume(gA.R * gA.C < 100000000); any_range();
  const float *A = gA.A + gA.off; long n = gA.R * gA.C;
  gD = vf_array<Matrix<uint8_t> >(1);
  if (vf_any<bool>()) { gD->data_ = vf_array<uint8_t>(n); vf_touch_(gD->data_, 'b'); gD->num_rows_ = gA.R; gD->num_cols_ = gA.C; gD->stride_ = gA.C; }
  else { gD->data_ = nullptr; gD->num_rows_ = 0; gD->num_cols_ = 0; gD->stride_ = 0; }
  QuantizationParams p;
  vf_cover("pre");
  Quantize(*gA.m, gD, &p);
  vf_assert(p.scale > 0, "a positive step");
  vf_assert(gMin == gMax || p.scale * 255 <= gMax - gMin, "at most 1/255 of the range");
  vf_assert(gD->num_rows_ == gA.R && gD->num_cols_ == gA.C, "shape");
  long i = vf_any<int>(); vf_assume(0 <= i && i < n);
  float back = p.scale * ((float)gD->data_[i] - (float)p.zero_point);
  vf_assert(back - A[i] <= p.scale && A[i] - back <= p.scale, "back to within one step");
  vf_assert(gA.A[gA.off + i] == gA.old[gA.off + i], "the source is unchanged");
}
// the quantised product: the arguments of the integer kernel
static MW<unsigned char> gU, gV; static MW<float> gC; static QuantizationParams gPU, gPV; static int gCalls;
void SC_gemm(bool ta, bool tb, bool tc, int m, int n, int k, const uint8_t *a, int aoff, int lda, const uint8_t *b, int boff, int ldb, float *c, float coff, int ldc, int depth) {
  vf_assert(ta && tb && tc, "row major operands");
  vf_assert(m == gC.R && n == gC.C && k == gU.C, "dimensions of the product");
  vf_assert(a == gU.A + gU.off && lda == gU.S && b == gV.A + gV.off && ldb == gV.S && c == gC.A + gC.off && ldc == gC.S, "matrices and strides");
  vf_assert(aoff == -gPU.zero_point && boff == -gPV.zero_point, "zero points are subtracted");
  vf_assert(coff == gPU.scale * gPV.scale, "the product of the steps");
  gCalls++;
}
void H_product() {
  any_mat(gU, true); any_mat(gV, true); any_mat(gC, true); gCalls = 0;
  vf_assume(gU.C == gV.R && gC.R == gU.R && gC.C == gV.C);
  vf_assume(gU.R * gU.C > 1 && gV.R * gV.C > 1);
  gPU.scale = vf_any<float>(); gPV.scale = vf_any<float>(); gPU.zero_point = vf_any<int>(); gPV.zero_point = vf_any<int>();
  vf_cover("pre");
  MatMat_U8U8F32(*gU.m, gPU, *gV.m, gPV, gC.m);
  vf_assert(gCalls == 1, "one product is computed");
}
}
