// neural network layers (PROP=13) and the streaming acoustic model (PROP=11)
#include "drv.h"
#include "am.h"
#include "nnet.h"
#include "matrix.h"
#include "vector.h"
using namespace pocketkaldi;
#ifndef PROP
#define PROP 13
#endif
struct M { int r, c; std::vector<double> v; M(int a = 0, int b = 0) : r(a), c(b), v(a * b) {} double &at(int i, int j) { return v[i * c + j]; } };
static M rnd(Rng &r, int a, int b) { M m(a, b); for (auto &x : m.v) x = r.chance(8) ? 0.0f : r.real(2); return m; }
static void put(Matrix<float> *o, M &m) { o->Resize(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) (*o)(i, j) = m.at(i, j); }
static void put(Vector<float> *o, M &m) { o->Resize(m.c); for (int j = 0; j < m.c; ++j) (*o)(j) = m.at(0, j); }
struct L { int kind; M w, b; std::vector<int> ix; int nl, nr; L() : kind(0), nl(0), nr(0) {} };
static L layer(Rng &r, int kind, int in, int *out) {
  L l; l.kind = kind; *out = in;
  if (kind == Layer::kLinear) { *out = r.range(1, 9); l.w = rnd(r, in, *out); l.b = rnd(r, 1, *out); }
  if (kind == Layer::kSplice) { int k = r.range(1, 4); for (int i = 0; i < k; ++i) l.ix.push_back(r.range(-4, 4)); *out = in * k; }
  if (kind == Layer::kBatchNorm) { l.w = rnd(r, 1, in); l.b = rnd(r, 1, in); }
  if (kind == Layer::kNarrow) { l.nl = r.range(0, 4); l.nr = r.range(0, 4); }
  return l;
}
static M apply(L &l, M x) {
  M y(x.r, x.c);
  switch (l.kind) {
    case Layer::kLinear: y = M(x.r, l.w.c); for (int i = 0; i < x.r; ++i) for (int j = 0; j < l.w.c; ++j) { double s = l.b.at(0, j); for (int k = 0; k < x.c; ++k) s += x.at(i, k) * l.w.at(k, j); y.at(i, j) = s; } break;
    case Layer::kReLU: for (size_t i = 0; i < x.v.size(); ++i) y.v[i] = x.v[i] < 0 ? 0 : x.v[i]; break;
    case Layer::kNormalize: for (int i = 0; i < x.r; ++i) { double s = 0; for (int j = 0; j < x.c; ++j) s += x.at(i, j) * x.at(i, j); for (int j = 0; j < x.c; ++j) y.at(i, j) = x.at(i, j) * sqrt(x.c / s); } break;
    case Layer::kSoftmax: for (int i = 0; i < x.r; ++i) { double s = 0; for (int j = 0; j < x.c; ++j) s += exp(x.at(i, j)); for (int j = 0; j < x.c; ++j) y.at(i, j) = exp(x.at(i, j)) / s; } break;
    case Layer::kLogSoftmax: for (int i = 0; i < x.r; ++i) { double s = 0; for (int j = 0; j < x.c; ++j) s += exp(x.at(i, j)); for (int j = 0; j < x.c; ++j) y.at(i, j) = x.at(i, j) - log(s); } break;
    case Layer::kSplice: y = M(x.r, x.c * l.ix.size()); for (int i = 0; i < x.r; ++i) for (size_t k = 0; k < l.ix.size(); ++k) { int s = i + l.ix[k]; if (s < 0) s = 0; if (s >= x.r) s = x.r - 1; for (int j = 0; j < x.c; ++j) y.at(i, k * x.c + j) = x.at(s, j); } break;
    case Layer::kBatchNorm: for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) y.at(i, j) = x.at(i, j) * l.w.at(0, j) + l.b.at(0, j); break;
    case Layer::kNarrow: if (x.r <= l.nl + l.nr) return x; y = M(x.r - l.nl - l.nr, x.c); for (int i = 0; i < y.r; ++i) for (int j = 0; j < x.c; ++j) y.at(i, j) = x.at(i + l.nl, j); break;
  }
  return y;
}
static Layer *make(L &l) {
  switch (l.kind) {
    case Layer::kLinear: { LinearLayer *q = new LinearLayer(); put(&q->W_, l.w); put(&q->b_, l.b); return q; }
    case Layer::kReLU: return new ReLULayer(); case Layer::kNormalize: return new NormalizeLayer(); case Layer::kSoftmax: return new SoftmaxLayer(); case Layer::kLogSoftmax: return new LogSoftmaxLayer();
    case Layer::kSplice: return new SpliceLayer(l.ix);
    case Layer::kBatchNorm: { Vector<float> a, b; put(&a, l.w); put(&b, l.b); return new BatchNormLayer(a, b); }
    default: return new NarrowLayer(l.nl, l.nr);
  }
}
static bool zero_row(M &x) { for (int i = 0; i < x.r; ++i) { double s = 0; for (int j = 0; j < x.c; ++j) s += x.at(i, j) * x.at(i, j); if (s < 1e-6) return true; } return false; }
static const char *nm(int k) { static const char *n[] = {"linear", "relu", "normalize", "softmax", "?", "?", "splice", "batchnorm", "logsoftmax", "narrow"}; return n[k]; }
static void cmp(const Matrix<float> &g, M &w, const char *what) {
  CHECKF(g.NumRows() == w.r && g.NumCols() == w.c, "%s: output %d x %d instead of %d x %d", what, g.NumRows(), g.NumCols(), w.r, w.c);
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) CHECKF(fabs(g(i, j) - w.at(i, j)) <= 2e-4 * (1 + fabs(w.at(i, j))), "%s: output (%d,%d) is %g instead of %g", what, i, j, g(i, j), w.at(i, j));
}
static const int kinds[] = {Layer::kLinear, Layer::kReLU, Layer::kNormalize, Layer::kSoftmax, Layer::kSplice, Layer::kBatchNorm, Layer::kLogSoftmax, Layer::kNarrow};
static void one(Rng &r) {
  int k = kinds[r.below(8)], R = r.range(1, 12), C = r.range(1, 8), o; drv_begin("%s layer, input %d x %d", nm(k), R, C); L l = layer(r, k, C, &o);
  if (k == Layer::kNarrow) drv_log(" narrow %d %d", l.nl, l.nr); for (int i : l.ix) drv_log(" %d", i);
  M x = rnd(r, R, C); if (k == Layer::kNormalize && zero_row(x)) { drv_end(); return; }
  std::unique_ptr<Layer> p(make(l)); Matrix<float> in, out; put(&in, x); if (r.chance(50)) out.Resize(r.range(1, 9), r.range(1, 9)); p->Propagate(in, &out); M w = apply(l, x); cmp(out, w, nm(k));
  if (k == Layer::kSoftmax) for (int i = 0; i < R; ++i) { double s = 0; for (int j = 0; j < C; ++j) s += out(i, j); CHECKF(fabs(s - 1) < 1e-4, "softmax row sums to %g", s); }
  if (k == Layer::kLinear && r.chance(50)) { M t(l.w.c, l.w.r); for (int i = 0; i < t.r; ++i) for (int j = 0; j < t.c; ++j) t.at(i, j) = l.w.at(j, i); Matrix<float> W; Vector<float> b; put(&W, t); put(&b, l.b); LinearLayer q(W, b); q.Propagate(in, &out); cmp(out, w, "linear (given W)"); }
  M back = x; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) CHECKF(in(i, j) == (float)x.at(i, j), "the input changed"); drv_end();
}
static void net(Rng &r) {
  int n = r.range(0, 6), R = r.range(1, 14), C = r.range(1, 6), c = C; drv_begin("net on %d x %d:", R, C); Nnet nn; M x = rnd(r, R, C), y = x; Matrix<float> in, out; put(&in, x);
  for (int i = 0; i < n; ++i) { int k = kinds[r.below(8)], o; if (k == Layer::kSplice && c > 30) k = Layer::kLinear; if (k == Layer::kNormalize && zero_row(y)) k = Layer::kReLU; L l = layer(r, k, c, &o); M z = apply(l, y); bool ok = true; for (double v : z.v) if (!(fabs(v) < 30)) ok = false; if (!ok) continue; drv_log(" %s", nm(k)); nn.layers_.emplace_back(make(l)); y = z; c = o; }
  if (r.chance(40)) out.Resize(r.range(1, 9), r.range(1, 9)); nn.Propagate(in, &out); cmp(out, y, "net"); nn.Propagate(in, &out); cmp(out, y, "net, second time"); drv_end();
}
static void am(Rng &r) {
  int Lc = r.range(0, 5), Rc = r.range(0, 5), chunk = r.range(1, 7), D = r.range(1, 4), N = r.chance(10) ? r.range(0, 2) : r.range(0, 40), P; drv_begin("am left %d right %d chunk %d dim %d frames %d", Lc, Rc, chunk, D, N);
  AcousticModel m; m.left_context_ = Lc; m.right_context_ = Rc; m.chunk_size_ = chunk; std::vector<L> ls; int o;
  // the receptive field of the net is inside [-left, right]: splice over [-left, right], narrow to the middle, then per-frame layers
  L s; s.kind = Layer::kSplice; int k = r.range(1, 4); for (int i = 0; i < k; ++i) s.ix.push_back(i == 0 ? -Lc : i == 1 ? Rc : r.range(-Lc, Rc)); ls.push_back(s); L nw; nw.kind = Layer::kNarrow; nw.nl = Lc; nw.nr = Rc; ls.push_back(nw); L li = layer(r, Layer::kLinear, D * k, &o); ls.push_back(li); P = o;
  if (r.chance(50)) { L q; q.kind = r.chance(50) ? Layer::kReLU : Layer::kLogSoftmax; ls.push_back(q); }
  for (auto &l : ls) m.nnet_.layers_.emplace_back(make(l)); m.num_pdfs_ = P; M pr = rnd(r, 1, P); put(&m.log_prior_, pr);
  std::vector<std::vector<float> > f(N, std::vector<float>(D)); for (auto &v : f) for (auto &x : v) x = r.real(2);
  AcousticModel::Instance inst, other; int got = 0; Matrix<float> lp;
  auto want = [&](int i) { M w(Lc + 1 + Rc, D); for (int t = 0; t < w.r; ++t) { int q = i - Lc + t; if (q < 0) q = 0; if (q >= N) q = N - 1; for (int j = 0; j < D; ++j) w.at(t, j) = f[q][j]; } M y = w; for (auto &l : ls) y = apply(l, y); for (int j = 0; j < P; ++j) y.at(0, j) -= pr.at(0, j); return y; };
  auto take = [&](const char *when) { for (int i = 0; i < lp.NumRows(); ++i, ++got) { CHECKF(got < N, "%s: row %d for %d frames", when, got, N); CHECKF(lp.NumCols() == P, "%s: %d columns", when, lp.NumCols()); M y = want(got); for (int j = 0; j < P; ++j) CHECKF(fabs(lp(i, j) - y.at(0, j)) <= 2e-4 * (1 + fabs(y.at(0, j))), "%s: row %d column %d is %g instead of %g", when, got, j, lp(i, j), y.at(0, j)); } };
  for (int i = 0; i < N; ++i) { Vector<float> v(D); for (int j = 0; j < D; ++j) v(j) = f[i][j]; if (r.chance(20)) { Matrix<float> q; Vector<float> z(D); m.Process(&other, z, &q); drv_log("*"); } m.Process(&inst, v, &lp); take("Process"); CHECKF(got <= i + 1, "a row before its frame"); CHECKF(got + chunk + Rc > i, "only %d rows after %d frames", got, i + 1); }
  m.EndOfStream(&inst, &lp); take("EndOfStream"); CHECKF(got == N, "%d rows for %d frames", got, N); drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) for (int i = 0; i < 20; ++i) { if (PROP == 11) am(r); else { one(r); one(r); net(r); } } }
