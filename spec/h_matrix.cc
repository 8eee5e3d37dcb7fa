// vf-link: vector.cc
#include "vfstd.h"
#include "matrix.cc"
#include "vfvec.h"

// ---- one arbitrary element (r, c) of the view and one arbitrary cell of the array that is not in it (row q of the stride
// grid, column m >= C or q >= R, or before the view); rows are handled by outer loops counted by k
struct At { long r, c, e, q, x; bool before; };
template <class T> static At any_at(MW<T> &w) {
  At a; a.r = vf_any<int>(); a.c = vf_any<int>(); a.q = vf_any<int>();
  vf_assume(0 <= a.r && a.r < w.R && 0 <= a.c && a.c < w.C && 0 <= a.q);
  long m = vf_any<int>();
  vf_assume(0 <= m && m < w.S && (m >= w.C || a.q >= w.R));
  a.e = w.off + a.r * w.S + a.c;
  a.before = vf_any<bool>();
  a.x = vf_any<int>();
  vf_assume(0 <= a.x && a.x < w.N);
  vf_assume((a.before & (a.x < w.off)) | (!a.before & (a.x == w.off + a.q * w.S + m)));
  return a;
}
#define ROWS(w, p, EXPECT, WHAT) \
  T *A = w.A, *old = w.old; const long S = w.S, C = w.C, R = w.R, o = w.off; (void)C; (void)R; (void)o; \
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(p.r, k, S) & row_order(p.q, k, S); }); \
  vf_inv("rows so far", [=](long k) -> bool { return A[p.e] == (p.r < k ? (EXPECT) : old[p.e]); }); \
  vf_inv("outside", [=](long k) -> bool { return A[p.x] == old[p.x]; });
#define DONE(w, p, EXPECT, WHAT) \
  vf_inv_clear(); \
  vf_assert(A[p.e] == (EXPECT), WHAT); \
  vf_assert(A[p.x] == old[p.x], "nothing outside the view is changed"); \
  vf_assert(w.m->data_ == A + o && w.m->num_rows_ == R && w.m->num_cols_ == C && w.m->stride_ == S, "the view stays in place");
template <class T> static void t_mscale() {
  MW<T> w; any_mat(w); At p = any_at(w); T f = vf_any<T>();
  ROWS(w, p, old[p.e] * f, "")
  vf_cover("pre");
  w.m->Scale(f);
  DONE(w, p, old[p.e] * f, "every element is scaled")
}
template <class T> static void t_mzero() {
  MW<T> w; any_mat(w); At p = any_at(w);
  ROWS(w, p, 0, "")
  vf_cover("pre");
  w.m->SetZero();
  DONE(w, p, 0, "every element is zero")
}
template <class T> static void t_mcopy() {
  MW<T> w, u; any_mat(w); any_mat(u); At p = any_at(w);
  vf_assume(w.R == u.R && w.C == u.C);
  T *B = u.A; long e2 = u.off + p.r * u.S + p.c, S2 = u.S, x2 = vf_any<int>();
  vf_assume(0 <= x2 && x2 < u.N);
  ROWS(w, p, B[e2], "")
  vf_inv("row arithmetic of the source", [=](long k) -> bool { return row_order(p.r, k, S2); });
  vf_cover("pre");
  w.m->CopyFromMat(*u.m);
  DONE(w, p, B[e2], "every element is copied")
  vf_assert(B[x2] == u.old[x2], "the source is unchanged");
}
template <class T> static void t_mcopyt() {
  MW<T> w, u; any_mat(w); any_mat(u); At p = any_at(w);
  vf_assume(w.R == u.C && w.C == u.R);
  T *B = u.A; long e2 = u.off + p.c * u.S + p.r, x2 = vf_any<int>();
  vf_assume(0 <= x2 && x2 < u.N);
  ROWS(w, p, B[e2], "")
  vf_cover("pre");
  w.m->CopyFromMat(*u.m, MatrixBase<T>::kTrans);
  DONE(w, p, B[e2], "every element is copied from the transposed place")
  vf_assert(B[x2] == u.old[x2], "the source is unchanged");
}
template <class T> static void t_view() {
  MW<T> w; any_mat(w); At p = any_at(w);
  vf_cover("pre");
  SubVector<T> v = w.m->Row((int)p.r);
  vf_assert(v.Dim() == w.C && &v((int)p.c) == w.A + p.e, "a row aliases the elements of the row");
  vf_assert(&(*w.m)((int)p.r, (int)p.c) == w.A + p.e, "indexing");
  int ro = vf_any<int>(), r = vf_any<int>(), co = vf_any<int>(), c = vf_any<int>();
  vf_assume(0 <= ro && 0 < r && ro + r <= w.R && 0 <= co && 0 < c && co + c <= w.C);
  SubMatrix<T> s = w.m->Range(ro, r, co, c);
  vf_assert(s.NumRows() == r && s.NumCols() == c && s.Stride() == w.S, "shape of a sub-matrix");
  vf_assume(p.r < r && p.c < c);
  vf_assert(&s((int)p.r, (int)p.c) == w.A + w.off + (ro + p.r) * w.S + co + p.c, "a sub-matrix aliases its elements");
}
extern "C" {
void H_mscale() { t_mscale<float>(); }
void H_mscaled() { t_mscale<double>(); }
void H_mzero() { t_mzero<float>(); }
void H_mzerod() { t_mzero<double>(); }
void H_mzerob() { t_mzero<unsigned char>(); }
void H_mcopy() { t_mcopy<float>(); }
void H_mcopyd() { t_mcopy<double>(); }
void H_mcopyt() { t_mcopyt<float>(); }
void H_view() { t_view<float>(); }
}
// ---- transposition in place, products
template <class T> static void t_transpose() {
  MW<T> w; any_mat(w); At p = any_at(w); vf_assume(w.R == w.C);
  T *A = w.A, *old = w.old; const long S = w.S, o = w.off;
  long a = p.r > p.c ? p.r : p.c, b = p.r > p.c ? p.c : p.r;       // the element and its mirror image: (a, b) and (b, a), b <= a
  long e1 = o + a * S + b, e2 = o + b * S + a;
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(a, k, S) & row_order(b, k, S) & row_order(p.q, k, S); });
  vf_inv_o("row arithmetic, columns", [=](long j, long k) -> bool { return row_order(a, j, S) & row_order(b, j, S) & row_order(p.q, j, S); });
  vf_inv("pairs of earlier rows are swapped", [=](long k) -> bool { return (A[e1] == (a < k ? old[e2] : old[e1])) & (A[e2] == (a < k ? old[e1] : old[e2])); });
  vf_inv_o("pairs of this row are swapped", [=](long j, long k) -> bool { bool d = (a < k) | ((a == k) & (b < j)); return (A[e1] == (d ? old[e2] : old[e1])) & (A[e2] == (d ? old[e1] : old[e2])); });
  vf_inv("outside", [=](long k) -> bool { return A[p.x] == old[p.x]; });
  vf_cover("pre");
  w.m->Transpose();
  { long R = w.R, C = w.C; DONE(w, p, old[o + p.c * S + p.r], "every element is the mirrored one") }
}
extern "C" void H_transpose() { t_transpose<float>(); }
static MW<float> gW, gU, gVm; static At gP;
// contract of SetZero (proved by H_mzero)
extern "C" void SC_mzero(MatrixBase<float> *m) {
  vf_assert(m == gW.m, "the result is cleared");
  vf_assert(m->num_rows_ == gW.R && m->num_cols_ == gW.C && m->stride_ == gW.S && m->data_ == gW.A + gW.off, "as given");
  vf_havoc_array_(gW.A);
  vf_assume(gW.A[gP.e] == 0 && gW.A[gP.x] == gW.old[gP.x]);
}
extern "C" void H_matmul() {
  typedef float T;
  any_mat(gW); any_mat(gU); any_mat(gVm); gP = any_at(gW);
  MW<T> &w = gW, &u = gU, &v = gVm; const At p = gP;
  vf_assume(w.R == u.R && w.C == v.C && u.C == v.R);
  const float *a = u.A, *b = v.A; long oa = u.off + p.r * u.S, ob = v.off + p.c, SB = v.S;
  float s = 0;
  for (int k = 0; k < u.C; k++) s += a[oa + k] * b[ob + k * SB];
  T *A = w.A, *old = w.old; const long S = w.S, C = w.C, R = w.R, o = w.off;
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(p.r, k, S) & row_order(p.q, k, S); });
  vf_inv("rows so far", [=](long k) -> bool { return A[p.e] == (p.r < k ? s : 0); });
  vf_inv("outside", [=](long k) -> bool { return A[p.x] == old[p.x]; });
  vf_cover("pre");
  SimpleMatMat<float>(*u.m, *v.m, w.m);
  DONE(w, p, s, "every element is the sum of the products")
}
static int gCalls;
extern "C" void SC_sgemm(int order, int ta, int tb, int M, int N, int K, float alpha, const float *A, int lda, const float *B, int ldb, float beta, float *C, int ldc) {
  vf_assert(order == CblasRowMajor && ta == CblasNoTrans && tb == CblasNoTrans, "row major, not transposed");
  vf_assert(M == gW.R && N == gW.C && K == gU.C, "dimensions of the product");
  vf_assert(A == gU.A + gU.off && lda == gU.S && B == gVm.A + gVm.off && ldb == gVm.S && C == gW.A + gW.off && ldc == gW.S, "matrices and strides");
  vf_assert(alpha == 1 && beta == 0, "C <- A * B");
  gCalls++;
}
extern "C" void H_matmat() {
  any_mat(gW); any_mat(gU); any_mat(gVm); gCalls = 0;
  vf_assume(gW.R == gU.R && gW.C == gVm.C && gU.C == gVm.R);
  vf_cover("pre");
  MatMat(*gU.m, *gVm.m, gW.m);
  vf_assert(gCalls == 1, "one product is computed");
}
