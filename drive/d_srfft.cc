// split radix FFT (C16)
#include "drv.h"
#include "srfft.h"
using namespace pocketkaldi;
void drv_main(uint64_t seed) {
  Rng r(seed); std::vector<SRFFT *> f; for (int l = 2; l <= 12; ++l) f.push_back(new SRFFT(1 << l));
  while (drv_time()) {
    int l = r.chance(10) ? r.range(10, 12) : r.range(2, 9), N = 1 << l, style = r.below(4); drv_begin("fft of %d real points, style %d seed %llu", N, style, (unsigned long long)r.s);
    std::vector<double> x(N); double sc = r.chance(30) ? 10000 : 1; int one = r.below(N); for (int i = 0; i < N; ++i) x[i] = (float)(style == 0 ? r.real(sc) : style == 1 ? (i == one ? sc : 0) : style == 2 ? sc * cos(2 * M_PI * one * i / N) : sc);
    std::vector<float> d(N), b(N); for (int i = 0; i < N; ++i) d[i] = x[i]; for (auto &v : b) v = r.real(9); float *dp = (float *)malloc(N * 4), *bp = (float *)malloc(N * 4); memcpy(dp, d.data(), N * 4); memcpy(bp, b.data(), N * 4);
    f[l - 2]->Compute(dp, N, true, bp, N); double nrm = 0; for (int i = 0; i < N; ++i) nrm += x[i] * x[i]; nrm = sqrt(nrm); double tol = 1e-5 * sqrt((double)N) * nrm + 1e-5 * sc;
    int kn = N <= 256 ? N / 2 + 1 : 40;
    for (int q = 0; q < kn; ++q) { int k = N <= 256 ? q : r.range(0, N / 2); double re = 0, im = 0; for (int i = 0; i < N; ++i) { double a = 2 * M_PI * ((long long)k * i % N) / N; re += x[i] * cos(a); im -= x[i] * sin(a); }
      double gr = k == 0 ? dp[0] : k == N / 2 ? dp[1] : dp[2 * k], gi = k == 0 || k == N / 2 ? 0 : dp[2 * k + 1]; CHECKF(fabs(gr - re) <= tol + 1e-4 * fabs(re) * 0 && (k == 0 || k == N / 2 || fabs(gi - im) <= tol), "bin %d is %g%+gi instead of %g%+gi (tolerance %g)", k, gr, gi, re, im, tol); }
    f[l - 2]->Compute(dp, N, false, bp, N); for (int i = 0; i < N; ++i) CHECKF(fabs(dp[i] - N * x[i]) <= N * (tol * 2 / sqrt((double)N) + 2e-5 * sc), "sample %d comes back as %g instead of %g", i, dp[i] / N, x[i]);
    free(dp); free(bp); drv_end();
  }
}
