// binary section readers (C07): exact content for well-formed bytes, an error status for everything else, the position after the section
#include "drv.h"
#include "vector.h"
#include "matrix.h"
#include "fst.h"
#include "nnet.h"
using namespace pocketkaldi;
typedef std::string S;
static void p32(S &s, int32_t v) { s.append((char *)&v, 4); }
static void pf(S &s, float v) { s.append((char *)&v, 4); }
static S vec(const std::vector<float> &v) { S s("VEC0"); p32(s, v.size() * 4 + 4); p32(s, v.size()); for (float f : v) pf(s, f); return s; }
typedef std::vector<std::vector<float> > Mat;
static S mat(const Mat &m) { S s("MAT0"); p32(s, 8); p32(s, m.size()); p32(s, m.empty() ? 0 : m[0].size()); for (auto &r : m) s += vec(r); return s; }
struct In { FILE *f; S b; util::ReadableFile *rf; In(const S &x) : b(x) { b.push_back('\0'); f = x.empty() ? fopen("/dev/null", "rb") : fmemopen((void *)b.data(), x.size(), "rb"); rf = new util::ReadableFile(f); } ~In() { delete rf; fclose(f); } long pos() { return ftell(f); } };
static void hex(const S &b) { drv_log(" bytes[%zu] ", b.size()); for (size_t i = 0; i < b.size() && i < 400; ++i) drv_log("%02x", (unsigned char)b[i]); }
static std::vector<float> rv(Rng &r, int n) { std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(r.chance(10) ? INFINITY : r.real(9)); return v; }
static int dim(Rng &r) { return r.chance(10) ? 0 : r.range(1, r.chance(10) ? 200 : 6); }

template <class R> static void vround(Rng &r, const char *nm) {
  std::vector<R> v; int n = dim(r); for (int i = 0; i < n; ++i) v.push_back((R)r.range(0, 200));
  S s("VEC0"); p32(s, n * sizeof(R) + 4); p32(s, n); for (R x : v) s.append((char *)&x, sizeof x);
  S tail = r.chance(50) ? S("TAIL") : S(); drv_begin("Vector<%s>::Read", nm); hex(s);
  In in(s + tail); Vector<R> x(r.chance(50) ? r.range(0, 5) : 0); Status st = x.Read(in.rf);
  CHECKF(st.ok(), "well-formed vector of %d elements rejected: %s", n, st.what().c_str()); CHECKF(x.Dim() == n, "dimension %d instead of %d", x.Dim(), n);
  for (int i = 0; i < n; ++i) CHECKF(x(i) == v[i], "element %d differs", i);
  CHECKF(in.pos() == (long)s.size(), "position %ld after the section of %zu bytes", in.pos(), s.size()); drv_end();
  for (size_t cut = 0; cut < s.size(); cut += r.chance(80) ? 1 : r.range(1, 9)) { drv_begin("Vector<%s>::Read truncated at %zu of %zu", nm, cut, s.size()); In t(s.substr(0, cut)); Vector<R> y; Status q = y.Read(t.rf); CHECKF(!q.ok(), "truncated input accepted"); drv_end(); if (cut > 24 && cut + 3 < s.size() && r.chance(70)) cut = s.size() - 3; }
}
static void chkm(const Matrix<float> &x, const Mat &m, const char *w) { int c = m.empty() ? 0 : m[0].size(); CHECKF(x.NumRows() == (int)m.size() && x.NumCols() == c, "%s: size %dx%d instead of %zux%d", w, x.NumRows(), x.NumCols(), m.size(), c); for (size_t i = 0; i < m.size(); ++i) for (int j = 0; j < c; ++j) CHECKF(x(i, j) == m[i][j], "%s: element (%zu, %d) differs", w, i, j); }
static Mat rm(Rng &r) { Mat m; if (r.chance(8)) return m; int a = r.range(1, 5), b = r.range(1, 6); for (int i = 0; i < a; ++i) m.push_back(rv(r, b)); return m; }
template <class F> static void cuts(Rng &r, const S &s, const char *nm, F read) {
  for (size_t cut = 0; cut < s.size(); cut += s.size() < 60 ? 1 : r.range(1, s.size() / 30)) { drv_begin("%s truncated at %zu", nm, cut); hex(s); In t(s.substr(0, cut)); Status q = read(t); CHECKF(!q.ok(), "truncated input accepted"); drv_end(); }
}
static Status rdm(In &t) { Matrix<float> y; return y.Read(t.rf); }
static void mround(Rng &r) {
  Mat m = rm(r); S s = mat(m); drv_begin("Matrix::Read"); hex(s); In in(s + "xyz"); Matrix<float> x; if (r.chance(40)) x.Resize(2, 3); Status st = x.Read(in.rf);
  CHECKF(st.ok(), "well-formed matrix rejected: %s", st.what().c_str()); chkm(x, m, "Matrix::Read"); CHECKF(in.pos() == (long)s.size(), "position %ld after the section of %zu bytes", in.pos(), s.size()); drv_end();
  cuts(r, s, "Matrix::Read", rdm);
  if (m.size() > 0) {   // a damaged row: wrong name, size or dimension
    Mat b = m; int k = r.below(m.size()); int kind = r.below(5); S t("MAT0"); p32(t, 8); p32(t, m.size()); p32(t, m[0].size());
    for (size_t i = 0; i < m.size(); ++i) { S row = vec(m[i]); if ((int)i == k) { if (kind == 0) row[r.below(4)] ^= 1 << r.below(7); else if (kind == 1) row[4 + r.below(2)] ^= 1 << r.below(8); else if (kind == 2) row[8] ^= 1 << r.below(3); else { std::vector<float> z = m[i]; z.push_back(1); if (kind == 4) { z.pop_back(); z.pop_back(); } row = vec(z); } } t += row; }
    drv_begin("Matrix::Read with damaged row %d kind %d", k, kind); hex(t); In i2(t); Matrix<float> y; Status q = y.Read(i2.rf); CHECKF(!q.ok(), "a matrix with a damaged row is accepted"); drv_end();
  }
}
static const int kOdd[] = {-1, -2, -3, -1000, INT32_MIN, INT32_MIN + 1, -536870912, -268435456};
static void headers(Rng &r) {
  int kind = r.below(9);
  if (kind < 2) {   // vector: dimension and size field disagree or are negative
    int d = r.chance(60) ? kOdd[r.below(8)] : r.range(0, 8), ss = r.chance(60) ? (int)((unsigned)d * 4u + 4u) : r.range(-9, 40); bool good = d >= 0 && (long)ss == 4L * d + 4; S s("VEC0"); if (kind && r.chance(50)) { s[r.below(4)] ^= 1 << r.below(7); good = false; } p32(s, ss); p32(s, d); s += S(64, 'a');
    drv_begin("Vector::Read size field %d dimension %d", ss, d); hex(s.substr(0, 12)); In in(s); Vector<float> x; Status st = x.Read(in.rf); CHECKF(st.ok() == good, "status %s for %s header", st.ok() ? "ok" : "error", good ? "a good" : "an inconsistent"); drv_end();
  } else if (kind < 5) {
    int a = r.chance(50) ? kOdd[r.below(8)] : r.range(0, 3), b = r.chance(50) ? kOdd[r.below(8)] : r.range(0, 3); if (r.chance(15)) { a = 0x7fffffff; b = 0x7fffffff; } if (r.chance(10)) { a = 65536; b = 65536; } bool bad = a < 0 || b < 0 || ((a == 0) != (b == 0)) || a > 100; S s("MAT0"); p32(s, 8); p32(s, a); p32(s, b); for (int i = 0; i < a && !bad; ++i) s += vec(rv(r, b));
    s += S(40, 'q'); drv_begin("Matrix::Read %d rows %d columns", a, b); In in(s); Matrix<float> x; Status st = x.Read(in.rf); CHECKF(st.ok() == !bad, "status %s for %d rows, %d columns", st.ok() ? "ok" : "error", a, b); drv_end();
  } else {
    int n = r.chance(50) ? kOdd[r.below(8)] : r.range(0, 4), na = r.chance(40) ? kOdd[r.below(8)] : r.range(0, 4), ss = (int)(12u + 8u * (unsigned)n + 16u * (unsigned)na); if (r.chance(30)) ss += r.range(-3, 3); if (r.chance(10)) { n = 1 << 29; na = r.range(0, 2); ss = 12 + 16 * na; }
    long want = 12 + 8L * n + 16L * na; bool good = n >= 0 && na >= 0 && want == ss; S s("pk::fst_0"); s.resize(32); if (r.chance(15)) { s[r.below(9)] ^= 1 << r.below(7); good = false; } p32(s, ss); p32(s, n); p32(s, na); p32(s, 0); s += S(120, '\0');
    drv_begin("Fst::Read size field %d states %d arcs %d", ss, n, na); In in(s); Fst f; Status st = f.Read(in.rf); CHECKF(st.ok() == good, "status %s (%s) for %s header", st.ok() ? "ok" : "error", st.what().c_str(), good ? "a good" : "an inconsistent"); drv_end();
  }
}
static Status rdf(In &t) { Fst f; return f.Read(t.rf); }
static void fround(Rng &r) {
  int n = r.range(1, 5), na = 0; std::vector<int> cnt; for (int i = 0; i < n; ++i) { cnt.push_back(r.chance(40) ? 0 : r.range(1, 3)); na += cnt[i]; }
  std::vector<int> il; S s("pk::fst_0"); s.resize(32); p32(s, 12 + 8 * n + 16 * na); p32(s, n); p32(s, na); int start = r.below(n); p32(s, start); std::vector<float> fin = rv(r, n); for (float f : fin) pf(s, f); int k = 0; for (int c : cnt) { p32(s, c ? k : -1); k += c; }
  for (int c : cnt) for (int j = 0; j < c; ++j) { p32(s, r.below(n)); il.push_back(j + 1); p32(s, j + 1); p32(s, 7); pf(s, 0.5f * j); }
  drv_begin("Fst::Read"); hex(s); In in(s + "T"); Fst f; Status st = f.Read(in.rf); CHECKF(st.ok(), "well-formed FST (%d states, %d arcs) rejected: %s", n, na, st.what().c_str()); CHECKF(in.pos() == (long)s.size(), "position after the section");
  CHECKF(f.StartState() == start, "start state"); for (int i = 0; i < n; ++i) { CHECKF(f.Final(i) == fin[i], "final weight of state %d", i); Fst::ArcIterator it = f.IterateArcs(i); int c = 0; const FstArc *a; while ((a = it.Next())) { CHECKF(a->input_label == c + 1 && a->output_label == 7 && a->weight == 0.5f * c, "arc %d of state %d", c, i); ++c; } CHECKF(c == cnt[i], "state %d has %d arcs instead of %d", i, c, cnt[i]); }
  drv_end(); cuts(r, s, "Fst::Read", rdf);
}
static Status rdn(In &t) { Nnet n; return n.Read(t.rf); }
static void negative(Rng &r) {
  S s("NN02"); p32(s, 1); p32(s, 2); const char *what = "number of layers";
  if (r.chance(50)) p32(s, -r.range(1, 1000)); else { what = "number of splice indices"; p32(s, 1); s += "LAY0"; p32(s, 6); p32(s, -r.range(1, 1000)); }
  drv_begin("Nnet::Read, negative counts"); hex(s); In in(s + "TTTTTTTT"); Nnet n; Status st = n.Read(in.rf);
  CHECKF(!st.ok(), "a network with a negative %s is accepted", what); drv_end();
}
static void nround(Rng &r) {
  S s("NN02"); p32(s, 1); p32(s, 2); int nl = r.range(0, 4); p32(s, nl); int in_dim = r.range(1, 4), d = in_dim; int bad = r.chance(35) && nl ? r.below(nl) : -1; std::vector<int> types; std::vector<Mat> Ws; std::vector<std::vector<float> > bs, b2; std::vector<std::vector<int> > idx;
  for (int i = 0; i < nl; ++i) {
    S name = "LAY0"; int t[] = {0, 1, 6, 7, 9, 2}; int ty = t[r.below(6)]; Ws.push_back(Mat()); bs.push_back(std::vector<float>()); b2.push_back(std::vector<float>()); idx.push_back(std::vector<int>()); types.push_back(ty);
    int wr = ty; if (i == bad) { if (r.chance(50)) name[r.below(4)] ^= 1 << r.below(7); else { int o[] = {4, 5, 10, -1, 77, 11}; wr = o[r.below(6)]; } }
    s += name; p32(s, wr);
    if (ty == 0) { int o = r.range(1, 4); Mat W; for (int a = 0; a < d; ++a) { W.push_back(std::vector<float>()); for (int b = 0; b < o; ++b) W[a].push_back(r.range(-3, 3)); } std::vector<float> b; for (int k = 0; k < o; ++k) b.push_back(r.range(-5, 5)); s += mat(W); s += vec(b); Ws[i] = W; bs[i] = b; d = o; }
    if (ty == 6) { int k = r.range(1, 3); p32(s, k); for (int j = 0; j < k; ++j) { int c = r.range(-2, 2); p32(s, c); idx[i].push_back(c); } d *= k; }
    if (ty == 7) { for (int k = 0; k < d; ++k) { bs[i].push_back(r.range(-2, 3)); b2[i].push_back(r.range(-2, 2)); } s += vec(bs[i]); s += vec(b2[i]); }
    if (ty == 9) { idx[i].push_back(r.range(0, 2)); idx[i].push_back(r.range(0, 2)); p32(s, idx[i][0]); p32(s, idx[i][1]); }
  }
  drv_begin("Nnet::Read"); hex(s); In in(s + "T"); Nnet n; Status st = n.Read(in.rf);
  if (bad >= 0) { CHECKF(!st.ok(), "a network with a damaged layer header is accepted"); drv_end(); return; }
  CHECKF(st.ok(), "well-formed network rejected: %s", st.what().c_str()); CHECKF(in.pos() == (long)s.size(), "position after the section"); CHECKF(n.left_context() == 1 && n.right_context() == 2, "contexts");
  int rows = r.range(1, 6); Mat x; for (int a = 0; a < rows; ++a) { x.push_back(std::vector<float>()); for (int b = 0; b < in_dim; ++b) x[a].push_back(r.range(-4, 4)); }
  Matrix<float> mi(rows, in_dim), mo; for (int a = 0; a < rows; ++a) for (int b = 0; b < in_dim; ++b) mi(a, b) = x[a][b];
  n.Propagate(mi, &mo);
  std::vector<std::vector<double> > y(rows); for (int a = 0; a < rows; ++a) y[a].assign(x[a].begin(), x[a].end());
  for (int i = 0; i < nl; ++i) { std::vector<std::vector<double> > z; int R = y.size(), C = y[0].size();
    if (types[i] == 0) for (int a = 0; a < R; ++a) { z.push_back(std::vector<double>()); for (size_t o = 0; o < bs[i].size(); ++o) { double q = bs[i][o]; for (int c = 0; c < C; ++c) q += y[a][c] * Ws[i][c][o]; z[a].push_back(q); } }
    else if (types[i] == 1) { z = y; for (auto &q : z) for (auto &v : q) if (v < 0) v = 0; }
    else if (types[i] == 6) for (int a = 0; a < R; ++a) { z.push_back(std::vector<double>()); for (int c : idx[i]) { int k = a + c; if (k < 0) k = 0; if (k > R - 1) k = R - 1; z[a].insert(z[a].end(), y[k].begin(), y[k].end()); } }
    else if (types[i] == 7) { z = y; for (auto &q : z) for (int c = 0; c < C; ++c) q[c] = q[c] * bs[i][c] + b2[i][c]; }
    else if (types[i] == 2) { z = y; for (auto &q : z) { double t = 0; for (double v : q) t += v * v; if (t == 0) { drv_end(); return; } double sc = sqrt(C / t); for (auto &v : q) v *= sc; } }
    else { int l = idx[i][0], rr = idx[i][1]; if (R <= l + rr) z = y; else for (int a = l; a < R - rr; ++a) z.push_back(y[a]); }
    y = z; }
  CHECKF(mo.NumRows() == (int)y.size() && mo.NumCols() == (int)y[0].size(), "output %dx%d instead of %zux%zu", mo.NumRows(), mo.NumCols(), y.size(), y[0].size());
  for (size_t a = 0; a < y.size(); ++a) for (size_t b = 0; b < y[0].size(); ++b) CHECKF(fabs(mo(a, b) - y[a][b]) <= 1e-3 * (1 + fabs(y[a][b])), "output (%zu, %zu) is %g instead of %g", a, b, mo(a, b), y[a][b]);
  drv_end(); if (r.chance(50)) cuts(r, s, "Nnet::Read", rdn);
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) { vround<float>(r, "float"); vround<int32_t>(r, "int"); vround<double>(r, "double"); vround<uint8_t>(r, "byte"); mround(r); for (int i = 0; i < 12; ++i) headers(r); fround(r); nround(r); negative(r); } }
