#include "vfstd.h"
#include <math.h>
#include "matrix.h"
#include "vector.cc"
#include "vfvec.h"
extern "C" { float expf(float); double log(double); double exp(double); double pow(double, double); }
template <class T> static void t_set() {
  VW<T> w; any_vec(w); T f = vf_any<T>();
  vf_cover("pre"); w.v->Set(f); elementwise(w, [=](T x, long i) -> T { return f; }, "Set");
}
template <class T> static void t_zero() {
  VW<T> w; any_vec(w);
  vf_cover("pre"); w.v->SetZero(); elementwise(w, [=](T x, long i) -> T { return (T)0; }, "SetZero");
}
template <class T> static void t_scale() {
  VW<T> w; any_vec(w); T f = vf_any<T>();
  vf_cover("pre"); w.v->Scale(f); elementwise(w, [=](T x, long i) -> T { return x * f; }, "Scale");
}
template <class T> static void t_add() {
  VW<T> w; any_vec(w); T f = vf_any<T>();
  vf_cover("pre"); w.v->Add(f); elementwise(w, [=](T x, long i) -> T { return x + f; }, "Add");
}
template <class T> static void t_mul() {
  VW<T> w, u; any_vec(w); any_vec(u); vf_assume(w.n == u.n);
  T *B = u.A + u.off;
  vf_cover("pre"); w.v->MulElements(*u.v); elementwise(w, [=](T x, long i) -> T { return x * B[i]; }, "MulElements"); unchanged(u);
}
template <class T> static void t_copy() {
  VW<T> w, u; any_vec(w); any_vec(u); vf_assume(w.n == u.n);
  T *B = u.A + u.off;
  vf_cover("pre"); w.v->CopyFromVec(*u.v); elementwise(w, [=](T x, long i) -> T { return B[i]; }, "CopyFromVec"); unchanged(u);
}
template <class T, class U> static void t_copyx() {
  VW<T> w; VW<U> u; any_vec(w); any_vec(u); vf_assume(w.n == u.n);
  U *B = u.A + u.off;
  vf_cover("pre"); w.v->CopyFromVec(*u.v); elementwise(w, [=](T x, long i) -> T { return (T)B[i]; }, "CopyFromVec with conversion"); unchanged(u);
}
template <class T, class U> static void t_addvec() {
  VW<T> w; VW<U> u; any_vec(w); any_vec(u); vf_assume(w.n == u.n); T f = vf_any<T>();
  U *B = u.A + u.off;
  vf_cover("pre"); w.v->AddVec(f, *u.v); elementwise(w, [=](T x, long i) -> T { return (T)(x + f * B[i]); }, "AddVec"); unchanged(u);
}
template <class T> static void t_log() {
  VW<T> w; any_vec(w); T *A = w.A; long o = w.off;
  vf_assume(vf_forall(0, w.n, [=](long i) -> bool { return A[o + i] >= 0; }));
  vf_cover("pre"); w.v->ApplyLog(); elementwise(w, [=](T x, long i) -> T { return (T)log(x); }, "ApplyLog");
}
template <class T> static void t_pow() {
  VW<T> w; any_vec(w); T f = vf_any<T>();
  vf_cover("pre"); w.v->ApplyPow(f); elementwise(w, [=](T x, long i) -> T { return (T)pow(x, f); }, "ApplyPow");
}
template <class T> static void t_floor() {
  VW<T> w; any_vec(w); T f = vf_any<T>(); T *old = w.old; long o = w.off;
  int want = 0;
  for (int i = 0; i < w.n; i++) if (old[o + i] < f) want++;
  vf_cover("pre"); int r = w.v->ApplyFloor(f);
  elementwise(w, [=](T x, long i) -> T { return x < f ? f : x; }, "ApplyFloor");
  vf_assert(r == want, "ApplyFloor counts the elements raised");
}
template <class T> static void t_dot() {
  VW<T> w, u; any_vec(w); any_vec(u); vf_assume(w.n == u.n);
  T s = 0; const T *a = w.A + w.off, *b = u.A + u.off;
  for (int i = 0; i < w.n; i++) s += a[i] * b[i];
  vf_cover("pre"); T r = w.v->VecVec(*u.v);
  vf_assert(r == s, "VecVec is the sum of the products");
  unchanged(w); unchanged(u);
}
static float gE[1];
extern "C" {
void H_set() { t_set<float>(); }
void H_setd() { t_set<double>(); }
void H_setb() { t_set<unsigned char>(); }
void H_seti() { t_set<int>(); }
void H_zero() { t_zero<float>(); }
void H_zerod() { t_zero<double>(); }
void H_zerob() { t_zero<unsigned char>(); }
void H_zeroi() { t_zero<int>(); }
void H_scale() { t_scale<float>(); }
void H_scaled() { t_scale<double>(); }
void H_add() { t_add<float>(); }
void H_addd() { t_add<double>(); }
void H_mul() { t_mul<float>(); }
void H_muld() { t_mul<double>(); }
void H_copy() { t_copy<float>(); }
void H_copyd() { t_copy<double>(); }
void H_copyb() { t_copy<unsigned char>(); }
void H_copyfd() { t_copyx<float, double>(); }
void H_copydf() { t_copyx<double, float>(); }
void H_addvec() { t_addvec<float, float>(); }
void H_addvecfd() { t_addvec<float, double>(); }
void H_addvecdf() { t_addvec<double, float>(); }
void H_log() { t_log<float>(); }
void H_logd() { t_log<double>(); }
void H_pow() { t_pow<float>(); }
void H_floor() { t_floor<float>(); }
void H_floord() { t_floor<double>(); }
void H_dot() { t_dot<float>(); }
void H_dotd() { t_dot<double>(); }
void H_softmax() {
  VW<float> w; any_vec(w);
  const float *a = w.old + w.off; float s = 0;
  for (int i = 0; i < w.n; i++) s += expf(a[i]);
  vf_assume(s > 0 || w.n == 0);
  vf_cover("pre"); w.v->ApplySoftMax();
  elementwise(w, [=](float x, long i) -> float { return expf(x) / s; }, "ApplySoftMax");
}
void H_logsoftmax() {
  VW<float> w; any_vec(w);
  const float *a = w.old + w.off; float s = 0;
  for (int i = 0; i < w.n; i++) s += (float)exp(a[i]);
  float l = log(s);
  vf_cover("pre"); w.v->ApplyLogSoftMax();
  elementwise(w, [=](float x, long i) -> float { return x - l; }, "ApplyLogSoftMax");
}
}
