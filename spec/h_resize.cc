// vf-link: vector.cc
#include "vfstd.h"
#include "matrix.cc"
#include "vfvec.h"
// ---- owned storage: an empty vector or one with n elements in a heap block of its own
template <class T> struct OV { T *A, *old; long n; Vector<T> *v; };
template <class T> static void any_owned(OV<T> &w) {
  int n = vf_any<int>(); vf_assume(n >= 0 && n < 100000000);
  w.v = vf_array<Vector<T> >(1); w.n = n;
  w.A = n > 0 ? vf_array<T>(n) : nullptr;
  w.old = nullptr;
  if (n > 0) { vf_touch_(w.A, tk<T>()); w.old = vf_snapshot(w.A); }
  w.v->data_ = w.A; w.v->dim_ = n;
}
template <class T> static void t_vresize() {
  OV<T> w; any_owned(w);
  int d = vf_any<int>(), ty = vf_any<int>(); vf_assume(d >= 0 && d < 100000000);
  vf_assume(ty == Vector<T>::kSetZero || ty == Vector<T>::kUndefined || ty == Vector<T>::kCopyData);
  long i = vf_any<int>();
  vf_assume(0 <= i && i < d);
  vf_cover("pre");
  w.v->Resize(d, ty);
  T *B = w.v->data_;
  vf_assert(w.v->dim_ == d && B != nullptr, "the size is the requested one");
  vf_assert(vf_count(B) == d, "the block has room for exactly the elements");
  vf_assert(w.n == 0 || B == w.A || !vf_alive(w.A), "the old block is released");
  vf_assert(vf_alive(B), "the block is live");
  if (ty == Vector<T>::kSetZero) vf_assert(B[i] == 0, "new contents are zero");
  if (ty == Vector<T>::kCopyData) vf_assert(B[i] == (i < w.n ? w.old[i] : 0), "old contents are kept, zero beyond");
}
template <class T> static void t_vresize0() {     // to size 0
  OV<T> w; any_owned(w);
  int ty = vf_any<int>();
  vf_assume(ty == Vector<T>::kSetZero || ty == Vector<T>::kUndefined || ty == Vector<T>::kCopyData);
  vf_cover("pre");
  w.v->Resize(0, ty);
  vf_assert(w.v->dim_ == 0 && w.v->data_ == nullptr, "empty");
  vf_assert(w.n == 0 || !vf_alive(w.A), "the old block is released");
}
template <class T> static void t_vmove() {
  OV<T> w, u; any_owned(w); any_owned(u);
  vf_cover("pre");
  int k = vf_any<int>();
  if (k == 0) {
    Vector<T> m(std::move(*w.v));
    vf_assert(m.data_ == w.A && m.dim_ == w.n, "a moved vector has the storage");
    vf_assert(w.v->data_ == nullptr && w.v->dim_ == 0, "the source of a move is empty");
    vf_assert(w.n == 0 || vf_alive(w.A), "the storage stays live");
  } else if (k == 1) {
    *u.v = std::move(*w.v);
    vf_assert(u.v->data_ == w.A && u.v->dim_ == w.n && w.v->data_ == nullptr && w.v->dim_ == 0, "assignment moves the storage");
    vf_assert((u.n == 0 || !vf_alive(u.A)) && (w.n == 0 || vf_alive(w.A)), "the old storage is released, the new one lives");
    return;
  } else if (k == 2) {
    *w.v = std::move(*w.v);
    vf_assert(w.v->data_ == w.A && w.v->dim_ == w.n && (w.n == 0 || vf_alive(w.A)), "self assignment changes nothing");
    return;
  } else if (k == 3) {
    w.v->Swap(u.v);
    vf_assert(w.v->data_ == u.A && w.v->dim_ == u.n && u.v->data_ == w.A && u.v->dim_ == w.n, "swap exchanges the storage");
    return;
  } else {
    w.v->~Vector<T>();
  }
  vf_assert(w.n == 0 || !vf_alive(w.A), "destruction releases the storage");
}
template <class T> static void t_vmisc() {
  Vector<T> e;
  vf_assert(e.Dim() == 0 && e.Data() == nullptr, "a default vector is empty");
  int n = vf_any<int>(); vf_assume(n > 0 && n < 100000000);
  int i = vf_any<int>(); vf_assume(0 <= i && i < n);
  vf_cover("pre");
  Vector<T> z(n);
  vf_assert(z.Dim() == n && z(i) == 0, "a new vector is zero");
  int a = vf_any<int>(), l = vf_any<int>();
  vf_assume(0 <= a && 0 < l && a + l <= n && i < l);
  SubVector<T> s = z.Range(a, l);
  vf_assert(s.Dim() == l && &s(i) == z.Data() + a + i, "a range aliases its elements");
  SubVector<T> p(z.Data(), l);
  vf_assert(p.Dim() == l && p.Data() == z.Data(), "a view of plain memory");
}
// ---- matrices
template <class T> struct OM { T *A, *old; long R, C, S; Matrix<T> *m; };
template <class T> static void any_omat(OM<T> &w, int kind) {
  w.m = vf_array<Matrix<T> >(1);
  int R = vf_any<int>(), C = vf_any<int>(), S = vf_any<int>();
  if (kind == 0) { R = C = S = 0; w.A = w.old = nullptr; }
  else {
    vf_assume(R > 0 && C > 0 && S >= C && (long)R * S < 100000000 && S < 100000000 && R < 100000000);
    w.A = vf_array<T>((long)R * S);
    vf_touch_(w.A, tk<T>());
    w.old = vf_snapshot(w.A);
  }
  w.R = R; w.C = C; w.S = S;
  w.m->data_ = w.A; w.m->num_rows_ = R; w.m->num_cols_ = C; w.m->stride_ = S;
}
template <class T> static void t_mresize(int kind, int ty) {
  OM<T> w; any_omat(w, kind);
  int r = vf_any<int>(), c = vf_any<int>(), st = vf_any<int>();
  vf_assume(r > 0 && c > 0 && r < 10000000 && c < 10000000 && (long)r * c < 100000000 && (long)r * (c + 16) < 100000000);
  vf_assume(st == Matrix<T>::kDefaultStride || st == Matrix<T>::kStrideEqualNumCols);
  long i = vf_any<int>(), j = vf_any<int>();
  vf_assume(0 <= i && i < r && 0 <= j && j < c);
  // loops over rows: of SetZero on a strided block and of CopyFromMat into the new block
  long S = w.S; const T *old = w.old; long rm = r < w.R ? r : w.R, cm = c < w.C ? c : w.C;
  OM<T> *pw = &w; 
  vf_inv("row arithmetic", [=](long k) -> bool { return row_order(i, k, S) & row_order(i, k, c); });
  vf_inv("rows cleared", [=](long k) -> bool { T *B = pw->m->data_; return B[i * pw->m->stride_ + j] == (i < k ? 0 : B[i * pw->m->stride_ + j]); });
  if (kind && ty == Matrix<T>::kCopyData) {
    vf_inv("rows copied", [=](long k) -> bool { T *B = vf_newest<T>(); return B[i * c + j] == ((i < k) & (i < rm) & (j < cm) ? old[i * S + j] : ((r > w.R) | (c > w.C)) & !((i < rm) & (j < cm)) ? 0 : B[i * c + j]); });
  }
  vf_cover("pre");
  w.m->Resize(r, c, ty, st);
  vf_inv_clear();
  T *B = w.m->data_; long Sn = w.m->stride_;
  vf_assert(w.m->num_rows_ == r && w.m->num_cols_ == c && Sn >= c && B != nullptr, "the shape is the requested one");
  vf_assert(vf_count(B) >= r * Sn, "the block has room for every row");
  vf_assert(kind == 0 || B == w.A || !vf_alive(w.A), "the old block is released");
  vf_assert(vf_alive(B), "the block is live");
  if (ty == Matrix<T>::kSetZero) vf_assert(B[i * Sn + j] == 0, "new contents are zero");
  if (ty == Matrix<T>::kCopyData && kind == 0) vf_assert(B[i * Sn + j] == 0, "nothing to copy: zero");
  if (ty == Matrix<T>::kCopyData && kind) vf_assert(B[i * Sn + j] == (i < w.R && j < w.C ? old[i * S + j] : 0), "old contents are kept, zero beyond");
}
template <class T> static void t_mmisc() {
  OM<T> w, u; any_omat(w, 1); any_omat(u, 1);
  vf_cover("pre");
  int k = vf_any<int>();
  if (k == 0) {
    w.m->Swap(u.m);
    vf_assert(w.m->data_ == u.A && w.m->num_rows_ == u.R && w.m->num_cols_ == u.C && w.m->stride_ == u.S, "swap: first");
    vf_assert(u.m->data_ == w.A && u.m->num_rows_ == w.R && u.m->num_cols_ == w.C && u.m->stride_ == w.S, "swap: second");
  } else if (k == 1) {
    w.m->~Matrix<T>();
    vf_assert(!vf_alive(w.A), "destruction releases the storage");
  } else if (k == 2) {
    w.m->Resize(0, 0);
    vf_assert(!vf_alive(w.A) && w.m->data_ == nullptr && w.m->num_rows_ == 0 && w.m->num_cols_ == 0, "resizing to nothing releases the storage");
  } else {
    Matrix<T> e;
    vf_assert(e.Data() == nullptr && e.NumRows() == 0 && e.NumCols() == 0, "a default matrix is empty");
  }
}
extern "C" {
void H_vresize() { t_vresize<float>(); }
void H_vresized() { t_vresize<double>(); }
void H_vresizeb() { t_vresize<unsigned char>(); }
void H_vresize0() { t_vresize0<float>(); }
void H_vmove() { t_vmove<float>(); }
void H_vmoved() { t_vmove<double>(); }
void H_vmisc() { t_vmisc<float>(); }
void H_mresize_new() { t_mresize<float>(0, Matrix<float>::kSetZero); }
void H_mresize_newcopy() { t_mresize<float>(0, Matrix<float>::kCopyData); }
void H_mresize_undef() { t_mresize<float>(1, Matrix<float>::kUndefined); }
void H_mresize_zero() { t_mresize<float>(1, Matrix<float>::kSetZero); }
void H_mresize_copy() { t_mresize<float>(1, Matrix<float>::kCopyData); }
void H_mmisc() { t_mmisc<float>(); }
}
