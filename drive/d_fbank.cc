// filter bank features of a sample stream (C10)
#include "drv.h"
#include "fbank.h"
using namespace pocketkaldi;
static std::vector<std::vector<double> > mel;
static double ms(double f) { return 1127.0 * log(1.0 + f / 700.0); }
static void init() { double lo = ms(20), hi = ms(8000), d = (hi - lo) / 41; for (int b = 0; b < 40; ++b) { std::vector<double> w(256, 0.0); for (int i = 0; i < 256; ++i) { double m = ms(16000.0 / 512 * i), l = lo + b * d, c = l + d, r = c + d; if (m > l && m < r) w[i] = m <= c ? (m - l) / d : (r - m) / d; } mel.push_back(w); } }
static double cs[512], sn[512];
static std::vector<double> frame(const float *p) {
  std::vector<double> x(512, 0.0); double mean = 0; for (int i = 0; i < 400; ++i) mean += p[i]; mean /= 400; for (int i = 0; i < 400; ++i) x[i] = p[i] - mean;
  for (int i = 399; i > 0; --i) x[i] -= 0.97 * x[i - 1]; x[0] -= 0.97 * x[0]; for (int i = 0; i < 400; ++i) x[i] *= 0.54 - 0.46 * cos(2 * M_PI / 399 * i);
  std::vector<double> pw(257); for (int k = 0; k <= 256; ++k) { double a = 0, b = 0; for (int i = 0; i < 400; ++i) { a += x[i] * cs[(k * i) & 511]; b -= x[i] * sn[(k * i) & 511]; } pw[k] = a * a + b * b; }
  std::vector<double> o; for (int b = 0; b < 40; ++b) { double e = 0; for (int i = 0; i < 256; ++i) e += mel[b][i] * pw[i]; o.push_back(e); } return o;
}
static std::vector<float> signal(Rng &r, int n) { std::vector<float> v(n); int k = r.below(4); double a = r.range(10, 12000), f = r.unit() * 3; for (int i = 0; i < n; ++i) v[i] = (float)(k == 0 ? r.range(-32768, 32767) : k == 1 ? (int)(a * sin(f * i) + 100) : k == 2 ? (r.chance(2) ? 20000 : r.range(-3, 3)) : (int)(a * sin(f * i * i / 4000.0)) + r.range(-50, 50)); return v; }
static int nframes(int n) { return n < 400 ? 0 : 1 + (n - 400) / 160; }
typedef std::vector<std::vector<float> > Rows;
static void put(Rows *o, const Matrix<float> &m) { for (int i = 0; i < m.NumRows(); ++i) { CHECKF(m.NumCols() == 40, "%d columns", m.NumCols()); std::vector<float> v; for (int j = 0; j < 40; ++j) v.push_back(m(i, j)); o->push_back(v); } }
static void feed(const Fbank &fb, Fbank::Instance *in, const float *p, int n, Matrix<float> *out) { float *h = (float *)malloc(n * 4 + 4); memcpy(h, p, n * 4); SubVector<float> v(h, n); fb.Process(in, v, out); free(h); }
void drv_main(uint64_t seed) {
  Rng r(seed); init(); for (int i = 0; i < 512; ++i) { cs[i] = cos(2 * M_PI * i / 512); sn[i] = sin(2 * M_PI * i / 512); } Fbank fb; Fbank fb2;
  { float z = 0; Fbank::Instance in; Matrix<float> m; drv_begin("Fbank::Process with an empty wave"); SubVector<float> v(&z, 0); fb.Process(&in, v, &m); CHECKF(m.NumRows() == 0, "%d rows for no sample", m.NumRows()); drv_end(); }
  while (drv_time()) {
    int n = r.chance(30) ? 400 + 160 * r.range(0, 6) + r.range(-1, 1) : r.range(1, r.chance(4) ? 80000 : r.chance(20) ? 9000 : 2500); std::vector<float> s = signal(r, n);
    drv_begin("Fbank: %d samples in chunks:", n);
    Fbank::Instance a, b, other; Rows ra, rb; Matrix<float> m, mo; feed(fb, &a, s.data(), n, &m); put(&ra, m);
    CHECKF((int)ra.size() == nframes(n), "%zu frames for %d samples instead of %d", ra.size(), n, nframes(n));
    int style = r.below(4);
    for (int p = 0; p < n;) {
      int c = style == 0 ? r.range(1, 30) : style == 1 ? r.range(100, 700) : style == 2 ? (r.chance(50) ? 160 : 400) : r.range(1, n > 9000 ? n : 3000); if (n > 9000 && style < 3 && r.chance(60)) c *= 40; if (c > n - p) c = n - p; drv_log(" %d", c);
      if (r.chance(10)) { std::vector<float> x = signal(r, 500); feed(fb, &other, x.data(), 500, &mo); drv_log("*"); }
      if (r.chance(3)) { float z = 0; SubVector<float> v(&z, 0); fb.Process(&b, v, &m); CHECKF(m.NumRows() == 0, "rows for an empty chunk"); drv_log(" 0"); }
      if (r.chance(30)) m.Resize(0, 0);
      feed(r.chance(50) ? fb : fb2, &b, s.data() + p, c, &m); put(&rb, m); p += c;
      CHECKF((int)rb.size() == nframes(p), "%zu frames after %d samples instead of %d", rb.size(), p, nframes(p));
    }
    CHECKF(ra.size() == rb.size(), "frames"); for (size_t i = 0; i < ra.size(); ++i) for (int j = 0; j < 40; ++j) CHECKF(ra[i][j] == rb[i][j] || fabs(ra[i][j] - rb[i][j]) < 1e-4, "frame %zu coefficient %d is %g chunked and %g in one call", i, j, rb[i][j], ra[i][j]);
    for (size_t i = 0; i < ra.size(); i += r.range(1, 4 + (int)ra.size() / 15)) { std::vector<double> e = frame(&s[i * 160]); double tot = 0; for (double x : e) tot += x; for (int j = 0; j < 40; ++j) { double lin = exp((double)ra[i][j]); double fl = e[j] < 1.1920929e-7 ? 1.1920929e-7 : e[j]; CHECKF(fabs(lin - fl) <= 2e-3 * fl + 1e-6 * tot + 1e-7, "frame %zu coefficient %d: energy %g instead of %g", i, j, lin, fl); } }
    drv_end();
  }
}
