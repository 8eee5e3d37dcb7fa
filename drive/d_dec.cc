// the decoder (C21)
#include "decoder.h"
#include "drv.h"
using namespace pocketkaldi;
struct A { int il, ol, to; float w; };
struct G { int n; std::vector<std::vector<A> > out; std::vector<float> fin; };
// a deterministic language model: states 0..k-1, every word accepted, own weights
struct Lm : public IFst { int k, words; std::vector<int> nx; std::vector<float> w, f; Lm(Rng &r, int a, int b, float mx) : k(a), words(b), nx(a * (b + 1)), w(a * (b + 1)), f(a) { for (auto &x : nx) x = r.below(k); for (auto &x : w) x = (float)(r.unit() * mx) * (r.chance(50) ? -1 : 1); for (auto &x : f) x = (float)(r.unit() * mx); }
  int StartState() const override { return 0; } bool GetArc(int s, int l, FstArc *a) const override { if (l < 1 || l > words) return false; *a = FstArc(nx[s * (words + 1) + l], l, l, w[s * (words + 1) + l]); return true; } float Final(int s) const override { return f[s]; } };
static const double INF = 1e30;
typedef std::pair<int, int> S;
static G graph(Rng &r, int pdfs, float mx, bool sparse) {
  G g; g.n = r.range(1, 8); g.out.resize(g.n); g.fin.resize(g.n); int words = 4;
  for (int s = 0; s < g.n; ++s) { int k = sparse ? r.below(3) : r.range(1, 4); for (int i = 0; i < k; ++i) { A a; a.il = r.chance(30) ? 0 : r.range(1, pdfs * 2); a.ol = r.chance(50) ? 0 : r.range(1, words); a.to = r.below(g.n); a.w = (float)(r.unit() * mx); if (a.il == 0 && a.to == s) a.to = (s + 1) % g.n; g.out[s].push_back(a); } g.fin[s] = r.chance(50) ? (float)(r.unit() * mx) : INFINITY; }
  return g;
}
static double step(const Lm *lm, int ls, int ol, int *nl) { *nl = ls; if (!lm || ol == 0) return 0; *nl = lm->nx[ls * (lm->words + 1) + ol]; return lm->w[ls * (lm->words + 1) + ol]; }
typedef std::map<S, double> Al;
static void eps(const G &g, const Lm *lm, Al *a) { bool ch = true; int it = 0; while (ch && ++it < 500) { ch = false; Al b = *a; for (auto &e : b) for (auto &x : g.out[e.first.first]) if (x.il == 0) { int nl; double c = e.second + x.w + step(lm, e.first.second, x.ol, &nl); S t(x.to, nl); auto q = a->find(t); if (q == a->end() || q->second > c + 1e-9) { (*a)[t] = c; ch = true; } } } }
static std::vector<Al> viterbi(const G &g, const Lm *lm, const std::vector<std::vector<float> > &fr, float sc, const std::vector<int> &map) {
  std::vector<Al> v; Al a; a[S(0, 0)] = 0; eps(g, lm, &a); v.push_back(a);
  for (auto &f : fr) { Al b; for (auto &e : a) for (auto &x : g.out[e.first.first]) if (x.il) { int nl; double c = e.second + x.w - (double)sc * f[map[x.il]]; c += step(lm, e.first.second, x.ol, &nl); S t(x.to, nl); auto q = b.find(t); if (q == b.end() || q->second > c) b[t] = c; } eps(g, lm, &b); a = b; v.push_back(a); }
  return v;
}
// cheapest path that yields exactly these words; end < 0: through the final weights, otherwise to that state
static double cheapest(const G &g, const Lm *lm, const std::vector<std::vector<float> > &fr, float sc, const std::vector<int> &map, const std::vector<int> &w, bool fin, S end) {
  typedef std::pair<S, int> P; std::map<P, double> a; a[P(S(0, 0), 0)] = 0; int n = w.size();
  auto ep = [&](std::map<P, double> *m) { bool ch = true; int it = 0; while (ch && ++it < 500) { ch = false; auto b = *m; for (auto &e : b) for (auto &x : g.out[e.first.first.first]) if (x.il == 0) { int k = e.first.second; if (x.ol) { if (k >= n || w[k] != x.ol) continue; ++k; } int nl; double c = e.second + x.w + step(lm, e.first.first.second, x.ol, &nl); P t(S(x.to, nl), k); auto q = m->find(t); if (q == m->end() || q->second > c + 1e-9) { (*m)[t] = c; ch = true; } } } };
  ep(&a);
  for (auto &f : fr) { std::map<P, double> b; for (auto &e : a) for (auto &x : g.out[e.first.first.first]) if (x.il) { int k = e.first.second; if (x.ol) { if (k >= n || w[k] != x.ol) continue; ++k; } int nl; double c = e.second + x.w - (double)sc * f[map[x.il]] + step(lm, e.first.first.second, x.ol, &nl); P t(S(x.to, nl), k); auto q = b.find(t); if (q == b.end() || q->second > c) b[t] = c; } ep(&b); a = b; }
  double best = INF; for (auto &e : a) if (e.first.second == n) { double c = e.second; if (fin) { c += g.fin[e.first.first.first]; if (lm) c += lm->f[e.first.first.second]; } else if (e.first.first != end) continue; if (c < best) best = c; } return best;
}
static void one(Rng &r) {
  bool wide = r.chance(40), sparse = r.chance(25); int pdfs = r.range(1, 4), N = wide ? r.range(0, 30) : r.range(0, 6); float mx = wide ? (r.chance(50) ? 6 : 20) : 0.6f, sc = 0.1f; G g = graph(r, pdfs, mx, sparse); std::unique_ptr<Lm> lm(r.chance(40) ? new Lm(r, r.range(1, 3), 4, wide ? 3 : 0.5f) : 0);
  std::vector<int> map(pdfs * 2 + 1); Vector<int32_t> pm(pdfs * 2 + 1); for (size_t i = 0; i < map.size(); ++i) pm(i) = map[i] = r.below(pdfs); std::vector<std::vector<float> > fr; bool neg = false; if (lm) for (float x : lm->w) if (x < 0) neg = true;
  // no cycle of epsilon arcs may gain cost: without one the best path exists
  if (neg) for (int s = 0; s < g.n; ++s) for (auto &a : g.out[s]) if (a.il == 0) { if (a.to <= s) { a.to = s + 1 < g.n ? r.range(s + 1, g.n - 1) : s; if (a.to == s) a.il = r.range(1, pdfs * 2); } }
  drv_begin("decode %d states%s:", g.n, lm ? " with a language model" : ""); for (int s = 0; s < g.n; ++s) { for (auto &a : g.out[s]) drv_log(" %d-%d:%d/%g->%d", s, a.il, a.ol, a.w, a.to); if (g.fin[s] < INF) drv_log(" %d/%g", s, g.fin[s]); }
  fst::VectorFst<fst::StdArc> f; for (int s = 0; s < g.n; ++s) f.AddState(); f.SetStart(0); for (int s = 0; s < g.n; ++s) { for (auto &a : g.out[s]) f.AddArc(s, fst::StdArc(a.il, a.ol, a.w, a.to)); if (g.fin[s] < INF) f.SetFinal(s, g.fin[s]); }
  Decoder d(&f, pm, sc); if (lm) d.delta_lm_fst_.reset(new CachedFst(lm.get(), r.chance(50) ? 7 : 1000));
  int rounds = r.chance(15) ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
    d.Initialize(); fr.clear(); if (round) drv_log(" | again"); bool dead = false; CHECKF(d.NumFramesDecoded() == 0, "frame count after Initialize");
    for (int t = 0; t < N; ++t) {
      Vector<float> v(pdfs); std::vector<float> q(pdfs); drv_log(" ["); for (int j = 0; j < pdfs; ++j) { v(j) = q[j] = wide ? -(float)(r.unit() * 80) : -(float)(r.unit() * 6); drv_log(" %g", q[j]); } drv_log("]"); fr.push_back(q);
      bool ok = d.Process(v); std::vector<Al> al = viterbi(g, lm.get(), fr, sc, map); Al &a = al.back(); if (dead) { CHECKF(!ok, "Process succeeds after the last path ended"); continue; }
      CHECKF(ok == !a.empty() || (wide && !ok), "Process returns %d with %zu reachable states", ok, a.empty() ? (size_t)0 : a.size()); if (!ok) { dead = true; continue; }
      CHECKF(d.NumFramesDecoded() == t + 1, "%d frames decoded instead of %d", d.NumFramesDecoded(), t + 1);
      std::set<S> seen; double best = INF; for (auto *k : d.toks_) { S s(k->state().hclg_state(), k->state().lm_state()); CHECKF(seen.insert(s).second, "two tokens for state (%d,%d)", s.first, s.second); auto it = a.find(s); CHECKF(it != a.end(), "a token in state (%d,%d) that no path reaches", s.first, s.second); CHECKF(k->cost() >= it->second - 1e-3, "state (%d,%d) has cost %g below the best path's %g", s.first, s.second, k->cost(), it->second); if (!wide) CHECKF(k->cost() <= it->second + 1e-3, "state (%d,%d) has cost %g instead of %g", s.first, s.second, k->cost(), it->second); if (k->cost() < best) best = k->cost(); }
      if (!wide) CHECKF(seen.size() == a.size(), "%zu active states instead of %zu", seen.size(), a.size());
      CHECKF(d.toks_pool_.allocated_nodes() == (int)d.toks_.size(), "%d token objects are held for %zu active tokens", d.toks_pool_.allocated_nodes(), d.toks_.size());
      if (t > 40) continue; if (r.chance(30)) { Decoder::Hypothesis h = d.BestPath(); std::vector<int> w(h.words().rbegin(), h.words().rend()); double bc = INF; for (auto *k : d.toks_) { double c = cheapest(g, lm.get(), fr, sc, map, w, false, S(k->state().hclg_state(), k->state().lm_state())); if (c < bc) bc = c; } CHECKF(h.weight() >= bc - 1e-2, "partial result: no path with these words costs %g (cheapest %g)", h.weight(), bc); CHECKF(fabs(h.weight() - best) < 1e-2, "partial result has cost %g but the best token %g", h.weight(), best); }
    }
    if (dead) { d.EndOfStream(); d.BestPath(); continue; }
    d.EndOfStream(); std::vector<Al> al = viterbi(g, lm.get(), fr, sc, map); double opt = INF; for (auto &e : al.back()) { double c = e.second + g.fin[e.first.first] + (lm ? lm->f[e.first.second] : 0); if (c < opt) opt = c; }
    Decoder::Hypothesis h = d.BestPath(); std::vector<int> w(h.words().rbegin(), h.words().rend());
    bool none = true; for (auto *k : d.toks_) if (g.fin[k->state().hclg_state()] < INF) none = false;
    if (none) { CHECKF(h.words().empty() && h.weight() == 0, "a result without a final state"); if (!wide) CHECKF(opt >= INF, "no result although a path of cost %g exists", opt); drv_log(" no path"); continue; }
    double c = cheapest(g, lm.get(), fr, sc, map, w, true, S(0, 0)); CHECKF(c < INF, "no complete path has the words of the result"); CHECKF(h.weight() >= c - 1e-2 , "cost %g is below that of every path with these words (%g)", h.weight(), c); CHECKF(h.weight() >= opt - 1e-2, "cost %g below the best path's %g", h.weight(), opt);
    if (!wide) { CHECKF(h.weight() <= opt + 1e-2, "cost %g instead of the best path's %g", h.weight(), opt); CHECKF(c <= opt + 1e-2, "the words of the result cost %g, the best path costs %g", c, opt); }
    else if (!lm) { // the beam keeps the best path if it stays within 15 of the best state at every frame
      // margin of the optimal path: smallest over optimal paths of the largest gap; computed by a bottleneck pass
      bool all = true; for (auto &x : al) { double mn = INF; for (auto &e : x) if (e.second < mn) mn = e.second; for (auto &e : x) if (e.second > mn + 15) all = false; } if (all) CHECKF(h.weight() <= opt + 1e-2, "cost %g instead of the best path's %g although no state leaves the beam", h.weight(), opt); }
  }
  drv_end();
}
static void longrun(Rng &r) {
  int pdfs = 3, N = r.range(100, 400); G g = graph(r, pdfs, 3, false); for (auto &o : g.out) { A a; a.il = r.range(1, 6); a.ol = r.range(1, 4); a.to = r.below(g.n); a.w = 1; o.push_back(a); } drv_begin("long stream: %d states %d frames", g.n, N);
  fst::VectorFst<fst::StdArc> f; for (int s = 0; s < g.n; ++s) f.AddState(); f.SetStart(0); for (int s = 0; s < g.n; ++s) { for (auto &a : g.out[s]) f.AddArc(s, fst::StdArc(a.il, a.ol, a.w, a.to)); g.fin[s] = 0.5f; f.SetFinal(s, 0.5); }
  std::vector<int> map(7); Vector<int32_t> pm(7); for (int i = 0; i < 7; ++i) pm(i) = map[i] = r.below(3); Decoder d(&f, pm, 0.1f); d.Initialize(); std::vector<std::vector<float> > fr;
  for (int t = 0; t < N; ++t) { Vector<float> v(3); std::vector<float> q(3); for (int j = 0; j < 3; ++j) v(j) = q[j] = -(float)(r.unit() * 40); fr.push_back(q); CHECKF(d.Process(v), "Process fails"); CHECKF(d.toks_pool_.allocated_nodes() == (int)d.toks_.size(), "%d token objects are held for %zu active tokens", d.toks_pool_.allocated_nodes(), d.toks_.size()); }
  d.EndOfStream(); Decoder::Hypothesis h = d.BestPath(); std::vector<int> w(h.words().rbegin(), h.words().rend()); double opt = INF; std::vector<Al> al = viterbi(g, 0, fr, 0.1f, map); for (auto &e : al.back()) if (e.second + 0.5 < opt) opt = e.second + 0.5; bool all = true; for (auto &x : al) { double mn = INF; for (auto &e : x) if (e.second < mn) mn = e.second; for (auto &e : x) if (e.second > mn + 15) all = false; }
  if (all) { CHECKF(fabs(h.weight() - opt) < 1e-4 * opt + 1e-2, "cost %g instead of %g", h.weight(), opt); if (w.size() < 300) { double c = cheapest(g, 0, fr, 0.1f, map, w, true, S(0, 0)); CHECKF(fabs(c - opt) < 1e-4 * opt + 1e-2, "the words of the result cost %g, the best path %g", c, opt); } } drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) { for (int i = 0; i < 10; ++i) one(r); if (r.chance(10)) longrun(r); } }
