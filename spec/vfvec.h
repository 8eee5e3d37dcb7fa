// views of vectors and matrices for the specifications
#ifndef VFVEC_H_
#define VFVEC_H_
#include "vf.h"
#include "matrix.h"
using namespace pocketkaldi;
// a vector view of any size anywhere inside a larger array: [off, off + n) of A[0..N)
template <class T> struct VW { T *A, *old; long N, off, n; VectorBase<T> *v; };
template <class T> char tk();
template <> char tk<float>() { return 'f'; }
template <> char tk<double>() { return 'd'; }
template <> char tk<int>() { return 'i'; }
template <> char tk<unsigned char>() { return 'b'; }
template <class T> static void any_vec(VW<T> &w) {
  long N = vf_any<long>(), o = vf_any<long>(); int n = vf_any<int>();
  vf_assume(n >= 0 && o >= 0 && o + n <= N && N < 500000000);
  w.N = N; w.off = o; w.n = n;
  w.A = vf_array<T>(N);
  vf_touch_(w.A, tk<T>());
  w.v = vf_array<Vector<T> >(1);
  w.v->data_ = w.A + o; w.v->dim_ = n;
  w.old = vf_snapshot(w.A);
}
// every element of the view is f(old element, index); nothing else changed
template <class T, class F> static void elementwise(VW<T> &w, const F &f, const char *what) {
  T *A = w.A, *old = w.old; long o = w.off, n = w.n;
  vf_assert(vf_forall(0, n, [=](long i) -> bool { return A[o + i] == f(old[o + i], i); }), what);
  vf_assert(vf_forall(0, w.off, [=](long i) -> bool { return A[i] == old[i]; }), "nothing before the view is changed");
  vf_assert(vf_forall(w.off + w.n, w.N, [=](long i) -> bool { return A[i] == old[i]; }), "nothing after the view is changed");
  vf_assert(w.v->data_ == A + o && w.v->dim_ == n, "the view stays in place");
}
template <class T> static void unchanged(VW<T> &w) {
  T *A = w.A, *old = w.old;
  vf_assert(vf_forall(0, w.N, [=](long i) -> bool { return A[i] == old[i]; }), "the operand is unchanged");
  vf_assert(w.v->data_ == A + w.off && w.v->dim_ == w.n, "the operand stays in place");
}
// a matrix view of any shape and stride anywhere inside a larger array: element (r, c) is A[off + r * s + c]
template <class T> struct MW { T *A, *old; long N, off, R, C, S; MatrixBase<T> *m; };
template <class T> static void any_mat(MW<T> &w, bool dense = false) {
  int R = vf_any<int>(), C = vf_any<int>(), S = vf_any<int>(); long o = vf_any<long>(), N = vf_any<long>();
  vf_assume(R > 0 && C > 0 && S >= C && o >= 0 && N < 500000000);
  if (dense) vf_assume(S == C);
  vf_assume(o + (long)(R - 1) * S + C <= N);
  w.N = N; w.off = o; w.R = R; w.C = C; w.S = S;
  w.A = vf_array<T>(N);
  vf_touch_(w.A, tk<T>());
  w.m = vf_array<Matrix<T> >(1);
  w.m->data_ = w.A + o; w.m->num_rows_ = R; w.m->num_cols_ = C; w.m->stride_ = S;
  w.old = vf_snapshot(w.A);
}
// products with a row count keep their order (inductive in k, so it is proved wherever it is used)
static inline bool row_order(long r, long k, long S) { return r < k ? r * S + S <= k * S : r * S >= k * S; }
#endif
