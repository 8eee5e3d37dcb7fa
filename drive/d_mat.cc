// element operations of Vector, Matrix and their views (C12)
#include "drv.h"
#include "matrix.h"
#include "vector.h"
using namespace pocketkaldi;
#ifdef DRV_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live() { return 0; }
#endif
// a guarded block: a canary around every view
struct Buf { std::vector<float> v; Buf(Rng &r, int n) : v(n) { for (auto &x : v) x = r.chance(10) ? 0 : r.real(4); } };
static bool near(double a, double b, double s) { return a == b || (a != a && b != b) || fabs(a - b) <= 1e-5 * (fabs(a) + fabs(b) + s) + 1e-6; }
static void vec_case(Rng &r) {
  int n = r.chance(8) ? 0 : r.range(1, r.chance(10) ? 300 : 24), pre = r.range(0, 3), post = r.range(0, 3); Buf b(r, pre + n + post), o(r, n + 1); std::vector<float> b0 = b.v, o0 = o.v;
  int op = r.below(12); float a = r.chance(25) ? 1.0f : r.chance(20) ? 0.0f : r.real(3); drv_begin("vector op %d dim %d alpha %g data", op, n, a); for (int i = 0; i < n && i < 40; ++i) drv_log(" %g", b0[pre + i]);
  SubVector<float> whole(b.v.data(), pre + n + post); SubVector<float> x = whole.Range(pre, n), y(o.v.data(), n); CHECKF(x.Dim() == n, "range has dimension %d", x.Dim()); if (n) CHECKF(x.Data() == b.v.data() + pre, "range starts elsewhere");
  std::vector<double> w(n); double sc = 0; for (int i = 0; i < n; ++i) w[i] = b0[pre + i];
  switch (op) {
    case 0: x.SetZero(); for (auto &e : w) e = 0; break;
    case 1: x.Set(a); for (auto &e : w) e = a; break;
    case 2: x.CopyFromVec(y); for (int i = 0; i < n; ++i) w[i] = o0[i]; break;
    case 3: x.Scale(a); for (auto &e : w) e *= a; break;
    case 4: x.Add(a); for (auto &e : w) e += a; sc = fabs(a); break;
    case 5: x.MulElements(y); for (int i = 0; i < n; ++i) w[i] *= o0[i]; break;
    case 6: x.AddVec(a, y); for (int i = 0; i < n; ++i) w[i] += a * o0[i]; sc = fabs(a) * 4; break;
    case 7: { int k = x.ApplyFloor(a), e = 0; for (auto &q : w) if (q < a) { q = a; ++e; } CHECKF(k == e, "ApplyFloor returns %d for %d floored elements", k, e); break; }
    case 8: { double s = 0, m = 0; for (int i = 0; i < n; ++i) { s += w[i] * o0[i]; m += fabs(w[i] * o0[i]); } float g = x.VecVec(y); CHECKF(fabs(g - s) <= 1e-5 * m + 1e-6, "VecVec is %g instead of %g", g, s); break; }
    case 9: { double s = 0; for (auto &e : w) s += exp(e); x.ApplySoftMax(); for (auto &e : w) e = exp(e) / s; break; }
    case 10: { double s = 0; for (auto &e : w) s += exp(e); x.ApplyLogSoftMax(); for (auto &e : w) e -= log(s); sc = 10; break; }
    case 11: { for (int i = 0; i < n; ++i) { b.v[pre + i] = fabsf(b.v[pre + i]) + (r.chance(5) ? 0.0f : 1e-3f); w[i] = log((double)b.v[pre + i]); } x.ApplyLog(); sc = 1; break; }
  }
  for (int i = 0; i < n; ++i) CHECKF(near(b.v[pre + i], w[i], sc), "element %d is %g instead of %g", i, b.v[pre + i], w[i]);
  for (int i = 0; i < pre; ++i) CHECKF(b.v[i] == b0[i], "an element before the view changed"); for (int i = pre + n; i < pre + n + post; ++i) CHECKF(b.v[i] == b0[i], "an element after the view changed");
  for (int i = 0; i <= n; ++i) CHECKF(o.v[i] == o0[i], "the operand changed"); drv_end();
}
static void resize_case(Rng &r) {
  drv_begin("vector resize:"); size_t l0 = live(), l1;
  { Vector<float> v, u; std::vector<float> m; bool known = true; int k = r.range(2, 12);
    for (int s = 0; s < k; ++s) {
      int n = r.chance(15) ? 0 : r.chance(25) ? (int)m.size() : r.range(1, 40), t = r.below(5); drv_log(" %s%d", t == 0 ? "z" : t == 1 ? "u" : t == 2 ? "c" : t == 3 ? "s" : "m", n);
      if (t == 0) { v.Resize(n); m.assign(n, 0); } else if (t == 1) { v.Resize(n, Vector<float>::kUndefined); CHECKF(v.Dim() == n, "dimension %d", v.Dim()); m.resize(n); for (int i = 0; i < n; ++i) v(i) = m[i] = r.real(9); }
      else if (t == 2) { v.Resize(n, Vector<float>::kCopyData); m.resize(n, 0); }
      else if (t == 3) { std::vector<float> q(n); Vector<float> w(n); for (int i = 0; i < n; ++i) w(i) = q[i] = r.real(9); v.Swap(&w); CHECKF(w.Dim() == (int)m.size(), "swap"); for (size_t i = 0; i < m.size(); ++i) CHECKF(w(i) == m[i], "swap lost element %zu", i); m = q; }
      else { std::vector<float> q(n); Vector<float> w(n); for (int i = 0; i < n; ++i) w(i) = q[i] = r.real(9); v = std::move(w); CHECKF(w.Dim() == 0, "moved-from vector keeps its elements"); m = q; Vector<float> z(std::move(v)); CHECKF(z.Dim() == n && v.Dim() == 0, "move construction"); v.Swap(&z); }
      CHECKF(v.Dim() == (int)m.size(), "dimension %d instead of %zu", v.Dim(), m.size()); for (size_t i = 0; i < m.size(); ++i) CHECKF(v(i) == m[i], "element %zu is %g instead of %g", i, v(i), m[i]);
    }
  }
  (void)l1; (void)l0; drv_end();
}
static void mleak() { size_t l0 = live(); { Vector<float> a(1000); Vector<float> b(1000); a = std::move(b); Matrix<float> m(10, 10); m.Resize(20, 30, Matrix<float>::kCopyData); m.Resize(5, 5); Matrix<float> q(3, 3); q.Swap(&m); } size_t l1 = live(); drv_begin("moves, resizes and destruction of a vector and a matrix"); CHECKF(l1 <= l0, "%zu bytes are never released", l1 - l0); drv_end(); }
struct M { int r, c; std::vector<float> v; M(int a, int b) : r(a), c(b), v(a * b) {} float &at(int i, int j) { return v[i * c + j]; } };
static M fill(Rng &r, MatrixBase<float> *m) { M w(m->NumRows(), m->NumCols()); for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) w.at(i, j) = (*m)(i, j) = r.chance(10) ? 0 : r.real(4); return w; }
static M get(const MatrixBase<float> &m) { M w(m.NumRows(), m.NumCols()); for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) { w.at(i, j) = m(i, j); CHECKF(m.Row(i)(j) == m(i, j), "Row(%d)(%d) differs from (%d,%d)", i, j, i, j); CHECKF(m.Data()[i * m.Stride() + j] == m(i, j), "Data and Stride disagree"); } return w; }
static void same(const MatrixBase<float> &m, M &w, const char *what) { CHECKF(m.NumRows() == w.r && m.NumCols() == w.c, "%s: %d x %d instead of %d x %d", what, m.NumRows(), m.NumCols(), w.r, w.c); M g = get(m); for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) CHECKF(near(g.at(i, j), w.at(i, j), 0), "%s: element (%d,%d) is %g instead of %g", what, i, j, g.at(i, j), w.at(i, j)); }
static void mat_case(Rng &r) {
  int R = r.range(1, 14), C = r.range(1, 14), st = r.chance(50) ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols; drv_begin("matrix %d x %d stride type %d:", R, C, st);
  Matrix<float> A(R, C, Matrix<float>::kUndefined, st); CHECKF(A.NumRows() == R && A.NumCols() == C && A.Stride() >= C, "shape"); M a = fill(r, &A);
  int op = r.below(10), ro = r.below(R), rn = r.range(1, R - ro), co = r.below(C), cn = r.range(1, C - co); drv_log(" op %d window %d+%d %d+%d", op, ro, rn, co, cn);
  SubMatrix<float> S = A.Range(ro, rn, co, cn); CHECKF(S.NumRows() == rn && S.NumCols() == cn, "sub-matrix shape");
  for (int i = 0; i < rn; ++i) for (int j = 0; j < cn; ++j) CHECKF(S(i, j) == a.at(ro + i, co + j), "sub-matrix element (%d,%d)", i, j);
  if (op == 0) { S.SetZero(); for (int i = 0; i < rn; ++i) for (int j = 0; j < cn; ++j) a.at(ro + i, co + j) = 0; same(A, a, "SetZero on a window"); }
  else if (op == 1) { float f = r.real(3); S.Scale(f); for (int i = 0; i < rn; ++i) for (int j = 0; j < cn; ++j) a.at(ro + i, co + j) *= f; same(A, a, "Scale on a window"); }
  else if (op == 2) { Matrix<float> B(rn, cn, Matrix<float>::kUndefined, r.chance(50)); M b = fill(r, &B); S.CopyFromMat(B); for (int i = 0; i < rn; ++i) for (int j = 0; j < cn; ++j) a.at(ro + i, co + j) = b.at(i, j); same(A, a, "copy into a window"); same(B, b, "copy source"); }
  else if (op == 3) { Matrix<float> B(cn, rn, Matrix<float>::kUndefined, r.chance(50)); M b = fill(r, &B); S.CopyFromMat(B, MatrixBase<float>::kTrans); for (int i = 0; i < rn; ++i) for (int j = 0; j < cn; ++j) a.at(ro + i, co + j) = b.at(j, i); same(A, a, "transposed copy into a window"); }
  else if (op == 4) { Matrix<float> B(R, R, Matrix<float>::kUndefined, st); M b = fill(r, &B); B.Transpose(); M t(R, R); for (int i = 0; i < R; ++i) for (int j = 0; j < R; ++j) t.at(i, j) = b.at(j, i); same(B, t, "Transpose"); }
  else if (op == 5 || op == 6) { int k = r.range(1, 5); for (int s = 0; s < k; ++s) { int nr = r.chance(12) ? 0 : r.chance(25) ? a.r : r.range(1, 14), nc = nr == 0 ? 0 : r.chance(30) && a.c ? a.c : r.range(1, 14), ty = r.below(3); drv_log(" %c%dx%d", "zuc"[ty], nr, nc);
      A.Resize(nr, nc, ty == 0 ? Matrix<float>::kSetZero : ty == 1 ? Matrix<float>::kUndefined : Matrix<float>::kCopyData, r.chance(50) ? Matrix<float>::kDefaultStride : Matrix<float>::kStrideEqualNumCols); M n(nr, nc);
      if (ty == 1) n = fill(r, &A); else if (ty == 2) for (int i = 0; i < nr && i < a.r; ++i) for (int j = 0; j < nc && j < a.c; ++j) n.at(i, j) = a.at(i, j); a = n; same(A, a, "Resize"); } }
  else if (op == 7) { int K = r.range(1, 14); Matrix<float> B(C, K, Matrix<float>::kUndefined, r.chance(50)), P(R, K, Matrix<float>::kUndefined, r.chance(50)), Q(R, K); M b = fill(r, &B); fill(r, &P); MatMat(A, B, &P); SimpleMatMat(A, B, &Q);
    for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { double s = 0, m = 0; for (int k = 0; k < C; ++k) { s += (double)a.at(i, k) * b.at(k, j); m += fabs(a.at(i, k) * b.at(k, j)); } CHECKF(fabs(P(i, j) - s) <= 1e-5 * m + 1e-6, "MatMat (%d,%d) is %g instead of %g", i, j, P(i, j), s); CHECKF(fabs(Q(i, j) - s) <= 1e-5 * m + 1e-6, "SimpleMatMat (%d,%d) is %g instead of %g", i, j, Q(i, j), s); } same(A, a, "operand"); }
  else if (op == 8) { Matrix<float> B(rn, cn); M b = fill(r, &B); A.Swap(&B); same(A, b, "Swap"); same(B, a, "Swap"); }
  else { Matrix<float> Z(3, 4); Z.Resize(0, 0); CHECKF(Z.NumRows() == 0 && Z.NumCols() == 0, "empty"); Matrix<float> z2(R, C, Matrix<float>::kSetZero, st); M z(R, C); same(z2, z, "kSetZero"); SubVector<float> row = A.Row(ro); row.Set(2.5f); for (int j = 0; j < C; ++j) a.at(ro, j) = 2.5f; same(A, a, "row view"); }
  drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); mleak(); while (drv_time()) { for (int i = 0; i < 20; ++i) { vec_case(r); mat_case(r); resize_case(r); } } mleak(); }
