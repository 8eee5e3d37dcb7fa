// sliding window mean normalisation (C15)
#include "drv.h"
#include "cmvn.h"
#include "fbank.h"
using namespace pocketkaldi;
void drv_main(uint64_t seed) {
  Rng r(seed);
  while (drv_time()) {
    int N = r.chance(60) ? r.range(1, 60) : r.chance(40) ? r.range(590, 620) : r.range(1, 1500), gc = r.range(1, 100000); double off = r.real(10); drv_begin("cmvn %d frames, global count %d, offset %g", N, gc, off);
    Matrix<float> f(N, 40); Vector<float> g(41); for (int i = 0; i < N; ++i) for (int j = 0; j < 40; ++j) f(i, j) = off + r.real(8); std::vector<double> gm(40); for (int j = 0; j < 40; ++j) { gm[j] = r.real(15); g(j) = gm[j] * gc; } g(40) = gc;
    CMVN c(g, f); std::vector<double> sum(40, 0.0); Vector<float> o(40);
    for (int t = 0; t < N; ++t) {
      for (int j = 0; j < 40; ++j) { sum[j] += f(t, j); if (t >= 600) sum[j] -= f(t - 600, j); }
      int cnt = t + 1 < 600 ? t + 1 : 600; double w = 600 - cnt; if (w > 200) w = 200; if (r.chance(5)) { o.Set(1e9f); } c.GetFrame(t, &o);
      for (int j = 0; j < 40; ++j) { double mean = (sum[j] + w / gc * (double)g(j)) / (cnt + w), e = f(t, j) - mean; CHECKF(fabs(o(j) - e) <= 2e-3, "frame %d coefficient %d is %g instead of %g", t, j, o(j), e); }
    }
    drv_end();
  }
}
