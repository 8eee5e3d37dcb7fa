// 8 bit quantisation and the quantised product (C14)
#include "drv.h"
#include "matrix.h"
using namespace pocketkaldi;
static void gen(Rng &r, Matrix<float> *m, int style) {
  float c = style == 0 ? 0 : style == 1 ? r.real(50) : 0, a = r.chance(20) ? 1000 : r.chance(20) ? 0.01f : 3, k = r.real(5);
  for (int i = 0; i < m->NumRows(); ++i) for (int j = 0; j < m->NumCols(); ++j) { float x = r.real(a); if (style == 2) x = fabsf(x) + 0.01f; if (style == 3) x = -fabsf(x) - 0.01f; if (style == 4) x = k; if (style == 5) x = 0; if (style == 1) x = c + r.real(fabsf(c) * 0.2f + 0.01f); (*m)(i, j) = x; }
}
// the spread is at least 1/500 of the largest magnitude, or there is none
static bool wide(const Matrix<float> &m) { float mn = m(0, 0), mx = mn; for (int i = 0; i < m.NumRows() * m.NumCols(); ++i) { float v = m.Data()[i]; if (v < mn) mn = v; if (v > mx) mx = v; } return mn == mx || mx - mn > 0.002f * (fabsf(mn) > fabsf(mx) ? fabsf(mn) : fabsf(mx)); }
static void show(const Matrix<float> &m) { for (int i = 0; i < m.NumRows() * m.NumCols() && i < 24; ++i) drv_log(" %g", m.Data()[i]); }
static void quant(const Matrix<float> &m, Matrix<uint8_t> *q, QuantizationParams *p) {
  Quantize(m, q, p); float mn = m(0, 0), mx = mn; for (int i = 0; i < m.NumRows(); ++i) for (int j = 0; j < m.NumCols(); ++j) { if (m(i, j) < mn) mn = m(i, j); if (m(i, j) > mx) mx = m(i, j); }
  CHECKF(q->NumRows() == m.NumRows() && q->NumCols() == m.NumCols(), "quantised shape");
  CHECKF(p->scale > 0 && p->scale - p->scale == 0, "scale %g", p->scale);
  double step = (mx - mn) / 255.0; double big = fabs(mn) > fabs(mx) ? fabs(mn) : fabs(mx);
  if (mx > mn) CHECKF(p->scale <= step * 1.001 + 1e-7 * big, "scale %g for a range of %g (step %g)", p->scale, mx - mn, step);
  for (int i = 0; i < m.NumRows(); ++i) for (int j = 0; j < m.NumCols(); ++j) { double v = ((int)(*q)(i, j) - (double)p->zero_point) * p->scale; CHECKF(fabs(v - m(i, j)) <= 1.01 * (p->scale) + 1e-5 * big, "element (%d,%d) = %g comes back as %g (scale %g zero point %d value %d)", i, j, m(i, j), v, p->scale, p->zero_point, (*q)(i, j)); }
}
void drv_main(uint64_t seed) {
  Rng r(seed);
  while (drv_time()) {
    int R = r.range(1, 9), C = r.range(1, 9), K = r.range(1, 9), s1 = r.below(6), s2 = r.below(6); if (R * C < 2) C = 2; if (C * K < 2) K = 2; drv_begin("quantise %d x %d kind %d and %d x %d kind %d:", R, C, s1, C, K, s2);
    Matrix<float> a(R, C), b(C, K), c(R, K); do gen(r, &a, s1); while (!wide(a)); do gen(r, &b, s2); while (!wide(b)); show(a); drv_log(" /"); show(b); Matrix<uint8_t> qa, qb; if (r.chance(30)) qa.Resize(R, C); else if (r.chance(50)) qa.Resize(C, R); else if (r.chance(50)) { qa.Resize(r.range(1, 9), r.range(1, 9)); qb.Resize(r.range(1, 9), C); } QuantizationParams pa, pb; quant(a, &qa, &pa); quant(b, &qb, &pb);
    MatMat_U8U8F32(qa, pa, qb, pb, &c);
    for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { double s = 0, m = 0; for (int k = 0; k < C; ++k) { double x = ((int)qa(i, k) - (double)pa.zero_point) * ((int)qb(k, j) - (double)pb.zero_point); s += x; m += fabs(x); } s *= (double)pa.scale * pb.scale; m *= (double)pa.scale * pb.scale; CHECKF(fabs(c(i, j) - s) <= 1e-5 * m + 1e-9, "product (%d,%d) is %g instead of %g", i, j, c(i, j), s); }
    drv_end();
  }
}
