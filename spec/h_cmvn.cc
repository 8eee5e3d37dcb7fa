// vf-link: vector.cc matrix.cc
#include "vfstd.h"
#include <math.h>
#include "cmvn.cc"
#include "vfvec.h"
// One arbitrary column d. P is the ghost prefix sum of that column: P[0] = 0, P[t + 1] = P[t] + raw[t][d].
// State invariant between calls (cached_frame_ == t - 1): t == 0, or the cached statistics are the sum over the window
// [max(0, t - 600), t) of column d, and the number of its frames.
static const long D = 40, WIN = 600, PRIOR = 200;
static bool inv(CMVN *c, long t, long d, const float *P) {
  long first = t > WIN ? t - WIN : 0;
  const float *s = c->cached_stats_.data_;
  return c->cached_frame_ == t - 1 && (t == 0 || (c->cached_stats_.dim_ == D + 1 && s[d] == P[t] - P[first] && s[D] == (float)(t - first)));
}
extern "C" {
void H_frame() {
  CMVN *c = vf_array<CMVN>(1);
  MW<float> raw; any_mat(raw); vf_assume(raw.C == D);
  c->raw_feats_.data_ = raw.A + raw.off; c->raw_feats_.num_rows_ = raw.R; c->raw_feats_.num_cols_ = D; c->raw_feats_.stride_ = raw.S;
  long n = vf_any<int>(); vf_assume(n == D + 1);
  float *G = vf_array<float>(n); vf_touch_(G, 'f');
  c->global_stats_.data_ = G; c->global_stats_.dim_ = D + 1;
  vf_assume(G[D] > 0);
  long t = vf_any<int>(), d = vf_any<int>();
  vf_assume(0 <= t && t < raw.R && 0 <= d && d < D);
  float *P = vf_array<float>(raw.R + 1L); vf_touch_(P, 'f');
  long out = t - WIN;                                  // the frame that leaves the window
  if (t == 0) vf_assume(P[0] == 0);
  vf_assume(P[t + 1] == P[t] + raw.A[raw.off + t * raw.S + d]);
  if (out >= 0) vf_assume(P[out + 1] == P[out] + raw.A[raw.off + out * raw.S + d]);
  if (t > 0) vf_assume(P[0] == 0);
  bool cached = vf_any<bool>();
  c->cached_frame_ = (int)t - 1;
  if (t > 0) { float *K = vf_array<float>(n); vf_touch_(K, 'f'); c->cached_stats_.data_ = K; c->cached_stats_.dim_ = D + 1; }
  else { c->cached_stats_.data_ = nullptr; c->cached_stats_.dim_ = 0; }
  vf_assume(inv(c, t, d, P));
  VW<float> f; any_vec(f); vf_assume(f.n == D);
  vf_cover("pre");
  c->GetFrame((int)t, f.v);
  vf_assert(inv(c, t + 1, d, P), "the cache holds the sum over the new window");
  long first = t + 1 > WIN ? t + 1 - WIN : 0, cnt = t + 1 - first;
  float sum = P[t + 1] - P[first], num = cnt;
  if (cnt < WIN) {
    float w = WIN - cnt > PRIOR ? PRIOR : WIN - cnt;
    sum = sum + w / G[D] * G[d]; num = num + w / G[D] * G[D];
  }
  vf_assert(f.A[f.off + d] == raw.A[raw.off + t * raw.S + d] - sum / num, "the raw frame minus the mean of the window and the prior");
  long x = vf_any<int>(); vf_assume(x >= 0 && x < raw.N);
  vf_assert(raw.A[x] == raw.old[x], "the raw features are unchanged");
  long y = vf_any<int>(); vf_assume(y >= 0 && y < f.N && (y < f.off || y >= f.off + D));
  vf_assert(f.A[y] == f.old[y], "nothing outside the frame is written");
}
}
static MW<float> gRaw; static Matrix<float> *gDst; static int gCopied;
// contracts of Matrix<float>::Resize and CopyFromMat (proved in h_resize.cc, h_matrix.cc)
extern "C" void SC_cresize(Matrix<float> *m, int r, int c, int type, int stride) {
  vf_assert(m == gDst && r == gRaw.R && c == gRaw.C, "the copy has the shape of the features");
  m->data_ = nullptr; m->num_rows_ = r; m->num_cols_ = c; m->stride_ = c;
}
extern "C" void SC_ccopy(MatrixBase<float> *m, const MatrixBase<float> *s, int trans) {
  vf_assert(m == gDst && s == gRaw.m && trans == MatrixBase<float>::kNoTrans, "the features are copied");
  vf_assert(m->num_rows_ == s->num_rows_ && m->num_cols_ == s->num_cols_, "shapes agree");
  gCopied++;
}
extern "C" void H_new() {
  any_mat(gRaw); gCopied = 0;
  long n = vf_any<int>(); vf_assume(n == D + 1);
  float *G = vf_array<float>(n); vf_touch_(G, 'f');
  Vector<float> *g = vf_array<Vector<float> >(1); g->data_ = G; g->dim_ = D + 1;
  CMVN *c = vf_array<CMVN>(1); gDst = &c->raw_feats_;
  vf_cover("pre");
  new (c) CMVN(*g, *(Matrix<float> *)gRaw.m);
  vf_assert(gCopied == 1, "the features are copied once");
  vf_assert(inv(c, 0, 0, nullptr) , "nothing is cached before the first frame");
  long d = vf_any<int>(); vf_assume(0 <= d && d <= D);
  vf_assert(c->global_stats_.dim_ == D + 1 && c->global_stats_.data_[d] == G[d] && c->global_stats_.data_ != G, "the global statistics are copied");
}
