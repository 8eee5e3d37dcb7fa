// FST (C04), language model FST with backoff and delta LM (C05), arc cache (C06) against independent definitions
#include "drv.h"
#include <stddef.h>
#include "fst.h"
#include "symbol_table.h"
using namespace pocketkaldi;
struct Arc { int next, il, ol; float w; };
struct Model { int start; std::vector<std::vector<Arc> > st; std::vector<float> fin; };
static void put32(std::string &s, int32_t v) { s.append((char *)&v, 4); }
static std::string bytes(const Model &m) {
  std::string s("pk::fst_0"); s.resize(32); int n = m.st.size(), na = 0; for (auto &a : m.st) na += a.size();
  put32(s, 12 + n * 8 + na * 16); put32(s, n); put32(s, na); put32(s, m.start);
  for (float f : m.fin) s.append((char *)&f, 4);
  int k = 0; for (auto &a : m.st) { put32(s, a.empty() ? -1 : k); k += a.size(); }
  for (auto &v : m.st) for (auto &a : v) { put32(s, a.next); put32(s, a.il); put32(s, a.ol); s.append((char *)&a.w, 4); }
  return s;
}
static void load(Fst *f, const Model &m) {
  std::string b = bytes(m); FILE *fp = fmemopen((void *)b.data(), b.size(), "rb"); { util::ReadableFile rf(fp); Status s = f->Read(&rf); CHECKF(s.ok(), "a well-formed FST is rejected: %s", s.what().c_str()); } fclose(fp);
}
static float wt(Rng &r) { return r.range(-80, 80) / 8.0f; }
static void desc(const Model &m) { drv_log("start %d;", m.start); for (size_t i = 0; i < m.st.size(); ++i) { drv_log(" state %zu final %g:", i, m.fin[i]); for (auto &a : m.st[i]) drv_log(" (%d->%d o%d w%g)", a.il, a.next, a.ol, a.w); } drv_log("; queries:"); }
static bool same(const FstArc &a, const Arc &b) { return a.next_state == b.next && a.input_label == b.il && a.output_label == b.ol && a.weight == b.w; }

static void fst_round(Rng &r) {
  Model m; int n = r.range(1, r.chance(20) ? 60 : 6), nl = r.range(1, 12); int tot = 0;
  m.st.resize(n); for (int i = 0; i < n; ++i) { m.fin.push_back(r.chance(50) ? INFINITY : wt(r)); if (r.chance(35)) continue; int il = r.range(-1, 2); int k = r.range(1, 7); for (int j = 0; j < k; ++j) { Arc a = {r.below(n), il, r.below(50), wt(r)}; m.st[i].push_back(a); ++tot; il += r.chance(10) ? 0 : r.range(1, 3); } }
  if (tot == 0) { Arc a = {0, 1, 2, 0.5f}; m.st[r.below(n)].push_back(a); }
  m.start = r.below(n); drv_begin("Fst: "); desc(m);
  Fst f; load(&f, m); (void)nl;
  CHECKF(f.StartState() == m.start, "start state %d", f.StartState());
  for (int s = 0; s < n; ++s) {
    float x = f.Final(s); CHECKF(x == m.fin[s], "Final(%d) = %g", s, x);
    Fst::ArcIterator it = f.IterateArcs(s); const FstArc *p; size_t k = 0;
    while ((p = it.Next()) != nullptr) { CHECKF(k < m.st[s].size(), "IterateArcs(%d) returns more than the %zu arcs of the state", s, m.st[s].size()); CHECKF(same(*p, m.st[s][k]), "IterateArcs(%d): arc %zu is (%d->%d o%d w%g)", s, k, p->input_label, p->next_state, p->output_label, p->weight); ++k; }
    CHECKF(k == m.st[s].size(), "IterateArcs(%d) returns %zu of %zu arcs", s, k, m.st[s].size()); CHECKF(it.Next() == nullptr, "iterator returns an arc after the end");
    for (int l = -3; l < 26; ++l) {
      FstArc a; a.next_state = -77; a.weight = 99; a.input_label = -5; a.output_label = -6; bool g = f.GetArc(s, l, &a); const Arc *e = nullptr; bool hit = false; for (auto &q : m.st[s]) if (q.il == l) { if (!e) e = &q; if (g && same(a, q)) hit = true; }
      CHECKF(g == (e != nullptr), "GetArc(%d, %d) = %d, the state %s an arc with this label", s, l, g, e ? "has" : "has not");
      if (g) CHECKF(hit, "GetArc(%d, %d) gives (%d->%d o%d w%g)", s, l, a.input_label, a.next_state, a.output_label, a.weight);
    }
  }
  drv_end();
}
// ---- LM
static bool lmarc(const Model &m, int s, int l, Arc *o) { for (auto &a : m.st[s]) if (a.il == l) { *o = a; return true; } if (m.st[s].empty() || m.st[s][0].il != 0) return false; if (!lmarc(m, m.st[s][0].next, l, o)) return false; o->w += m.st[s][0].w; return true; }
static float lmfin(const Model &m, int s) { if (std::isfinite(m.fin[s])) return m.fin[s]; if (m.st[s].empty() || m.st[s][0].il != 0) return INFINITY; float x = lmfin(m, m.st[s][0].next); return std::isfinite(x) ? x + m.st[s][0].w : INFINITY; }
static Model lm(Rng &r, int nw, int big) {   // states ordered by backoff: a state backs off to an earlier one
  Model m; int n = r.range(1, big ? 25 : 7); m.st.resize(n);
  for (int i = 0; i < n; ++i) { m.fin.push_back(r.chance(60) ? INFINITY : wt(r));
    if (i > 0 && r.chance(85)) { Arc a = {r.below(i), 0, 0, wt(r)}; m.st[i].push_back(a); }
    int p = i == 0 ? r.range(30, 100) : r.range(0, 60); for (int l = 1; l <= nw; ++l) if (r.chance(p)) { Arc a = {r.below(n), l, l, wt(r)}; m.st[i].push_back(a); } }
  if (m.st[0].empty()) { Arc a = {0, 1, 1, wt(r)}; m.st[0].push_back(a); }
  m.start = r.below(n); return m;
}
static void lm_round(Rng &r) {
  int nw = r.range(2, 9); Model m = lm(r, nw, r.chance(30)); int n = m.st.size();
  drv_begin("LmFst: "); desc(m); LmFst f; load(&f, m); bool b0 = r.chance(70); if (b0) { drv_log(" InitBucket0"); f.InitBucket0(); }
  for (int s = 0; s < n; ++s) {
    for (int l = 1; l < nw + 4; ++l) { FstArc a; Arc e; bool g = f.GetArc(s, l, &a), x = lmarc(m, s, l, &e); CHECKF(g == x, "GetArc(%d, %d) = %d, expected %d", s, l, g, x); if (g) CHECKF(same(a, e), "GetArc(%d, %d) gives (%d->%d o%d w%g), expected (%d->%d o%d w%g)", s, l, a.input_label, a.next_state, a.output_label, a.weight, e.il, e.next, e.ol, e.w); }
    float g = f.Final(s), x = lmfin(m, s); CHECKF(g == x, "Final(%d) = %g, expected %g", s, g, x);
  }
  // delta LM
  int bos = r.range(1, nw), eos = r.range(1, nw); if (eos == bos) eos = bos % nw + 1; std::string fn = drv_work + "/sym.txt"; FILE *fp = fopen(fn.c_str(), "w"); for (int i = 0; i <= nw + 3; ++i) { if (i == bos) fprintf(fp, "<s> %d\n", i); else if (i == eos) fprintf(fp, "</s> %d\n", i); else fprintf(fp, "w%d %d\n", i, i); } fclose(fp);
  SymbolTable sym; Status st = sym.Read(fn); CHECKF(st.ok(), "symbol table rejected"); Vector<float> small(nw + 4); for (int i = 0; i < nw + 4; ++i) small(i) = wt(r);
  drv_log(" bos %d eos %d small", bos, eos); for (int i = 0; i < nw + 4; ++i) drv_log(" %g", small(i));
  DeltaLmFst d(&small, &f, &sym); { Arc e; int x = lmarc(m, m.start, bos, &e) ? e.next : m.start; CHECKF(d.StartState() == x, "delta StartState() = %d, expected %d", d.StartState(), x); }
  for (int s = 0; s < n; ++s) {
    for (int l = 1; l < nw + 4; ++l) { FstArc a; Arc e; bool g = d.GetArc(s, l, &a), x = lmarc(m, s, l, &e); CHECKF(g == x, "delta GetArc(%d, %d) = %d", s, l, g); if (g) { e.w -= small(l); CHECKF(same(a, e), "delta GetArc(%d, %d) gives (%d->%d o%d w%g), expected (%d->%d o%d w%g)", s, l, a.input_label, a.next_state, a.output_label, a.weight, e.il, e.next, e.ol, e.w); } }
    Arc e; float x = INFINITY; if (lmarc(m, s, eos, &e)) x = lmfin(m, e.next) + e.w - small(eos); float g = d.Final(s); CHECKF(g == x, "delta Final(%d) = %g, expected %g", s, g, x);
  }
  drv_end();
}
// ---- cache
struct Inner : public IFst { mutable std::map<std::pair<int, int>, int> dummy; int ns, nl; std::vector<int> has; mutable long calls = 0;
  static void fill(int s, int l, FstArc *a) { a->next_state = s * 7 + l; a->input_label = l; a->output_label = l * 3 + s % 5; a->weight = (s * 131 + l) / 16.0f; }
  int StartState() const override { return 5; } float Final(int s) const override { return s * 0.5f; }
  bool ok(int s, int l) const { return ((unsigned)(s * 2654435761u + l * 40503u) >> 7) % 3 != 0; }
  bool GetArc(int s, int l, FstArc *a) const override { ++calls; if (!ok(s, l)) { if (l & 1) { a->next_state = -1; a->input_label = l; a->weight = -1e30f; } return false; } fill(s, l, a); return true; } };
static void cache_round(Rng &r) {
  Inner in; int bs[] = {1, 2, 3, 7, 16, 97, 1000}; int b = bs[r.below(7)]; drv_begin("CachedFst(bucket_size %d):", b); CachedFst c(&in, b);
  CHECKF(c.StartState() == 5, "StartState"); int n = r.range(5, 400), ss = r.chance(50) ? 4 : 3000, sl = r.chance(50) ? 5 : 100000;
  for (int i = 0; i < n; ++i) {
    int s = r.chance(10) ? 0 : r.below(ss), l = r.range(0, sl); if (r.chance(30)) { l = r.below(40); s = r.below(6); } if (r.chance(3)) { float x = c.Final(s); CHECKF(x == s * 0.5f, "Final"); }
    drv_log(" (%d,%d)", s, l); FstArc a, e; a.next_state = -9; a.input_label = -9; a.output_label = -9; a.weight = -9; bool g = c.GetArc(s, l, &a), x = in.ok(s, l); CHECKF(g == x, "GetArc(%d, %d) = %d through the cache, %d without it", s, l, g, x);
    if (g) { Inner::fill(s, l, &e); CHECKF(a.next_state == e.next_state && a.input_label == e.input_label && a.output_label == e.output_label && a.weight == e.weight, "GetArc(%d, %d) gives (%d->%d o%d w%g) through the cache, (%d->%d o%d w%g) without it", s, l, a.input_label, a.next_state, a.output_label, a.weight, e.input_label, e.next_state, e.output_label, e.weight); }
  }
  drv_end();
}
static void cache_lm_round(Rng &r) {   // the cache over a real delta LM
  int nw = r.range(2, 9); Model m = lm(r, nw, 1); int n = m.st.size(); drv_begin("CachedFst over LmFst: "); desc(m); LmFst f; load(&f, m); f.InitBucket0(); CachedFst c(&f, r.range(1, 20));
  for (int i = 0; i < 300; ++i) { int s = r.below(n), l = r.range(1, nw + 3); drv_log(" (%d,%d)", s, l); FstArc a; Arc e; bool g = c.GetArc(s, l, &a), x = lmarc(m, s, l, &e); CHECKF(g == x, "GetArc(%d, %d) = %d through the cache", s, l, g); if (g) CHECKF(same(a, e), "GetArc(%d, %d) gives (%d->%d o%d w%g) through the cache, expected (%d->%d o%d w%g)", s, l, a.input_label, a.next_state, a.output_label, a.weight, e.il, e.next, e.ol, e.w); }
  drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed);
  std::cout.setstate(std::ios_base::failbit);
  while (drv_time()) for (int i = 0; i < 40; ++i) {
#if PROP == 4
    fst_round(r);
#elif PROP == 5
    lm_round(r);
#else
    cache_round(r); cache_lm_round(r);
#endif
  } }
