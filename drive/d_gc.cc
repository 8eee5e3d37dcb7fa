// GCPool against reachability computed independently
#include "drv.h"
#include <stddef.h>
#include "pool.h"
using namespace pocketkaldi;
struct N; static std::map<N *, long> at; static std::map<long, int> collected, dtor_; static std::set<N *> alive;
struct N : public Collectable { N *prev; long id; std::vector<int> own;
  N(N *p, long i) : prev(p), id(i) { CHECKF(!at.count(this), "node %ld constructed in the slot of live node %ld", i, at[this]); at[this] = i; own.assign(2, (int)i); }
  ~N() { CHECKF(at.count(this) && at[this] == id, "destructor on a dead slot"); ++dtor_[id]; at.erase(this); }
  N *previous() const { return prev; }
  void OnCollect() override { CHECKF(at.count(this), "OnCollect on a dead node"); ++collected[id]; } };
template <int B> static void round(Rng &r) {
  at.clear(); collected.clear(); dtor_.clear(); long id = 0;
  drv_begin("GCPool<%d>:", B);
  { GCPool<N, B> p; std::vector<N *> live; int steps = r.range(1, 6);
    for (int s = 0; s < steps; ++s) {
      int n = r.below(3 * B + 6);
      for (int i = 0; i < n; ++i) { int k = live.empty() || r.chance(15) ? -1 : r.chance(50) ? (int)live.size() - 1 : r.below(live.size()); drv_log(" new%ld(%ld)", id, k < 0 ? -1L : live[k]->id); live.push_back(p.Alloc(k < 0 ? nullptr : live[k], id)); ++id; }
      std::vector<N *> roots; int nr = r.chance(15) ? 0 : r.range(1, 4);
      for (int i = 0; i < nr && !live.empty(); ++i) { N *x = r.chance(40) ? live.back() : live[r.below(live.size())]; roots.push_back(x); drv_log(" root%ld", x->id); }
      std::set<N *> reach; for (N *x : roots) for (N *y = x; y; y = y->prev) reach.insert(y);
      collected.clear(); auto before = dtor_;
      drv_log(" GC;"); p.GC(roots);
      for (N *x : live) { long i = 0; bool re = reach.count(x);
        if (re) { CHECKF(at.count(x), "a reachable node was freed"); i = x->id; CHECKF(at[x] == i && x->own.size() == 2 && x->own[1] == (int)i, "reachable node changed"); CHECKF(!collected.count(i), "OnCollect called on reachable node %ld", i); CHECKF(!x->is_freed(), "reachable node %ld flagged as freed", i); }
        else CHECKF(!at.count(x), "unreachable node %ld was not freed", x->id); }
      std::vector<N *> nl; for (N *x : live) if (reach.count(x)) nl.push_back(x);
      CHECKF(collected.size() == live.size() - nl.size(), "%zu nodes collected, %zu unreachable", collected.size(), live.size() - nl.size());
      for (auto &c : collected) CHECKF(c.second == 1 && dtor_[c.first] == 1, "node %ld: OnCollect %d times, destroyed %d times", c.first, c.second, dtor_[c.first]);
      live = nl; CHECKF(p.allocated_nodes() == (int)live.size(), "allocated_nodes() = %d, %zu live", p.allocated_nodes(), live.size());
      for (N *x : live) CHECKF(!x->prev || at.count(x->prev), "dangling link");
      if (r.chance(30) && !live.empty()) { // explicit deallocation of a node nobody points to
        N *x = live.back(); bool pointed = false; for (N *y : live) if (y->prev == x) pointed = true; if (!pointed) { drv_log(" dealloc%ld", x->id); p.Dealloc(x); live.pop_back(); CHECKF(!at.count(x), "Dealloc did not destroy"); } }
    } drv_log(" destroy"); }
  CHECKF(at.empty(), "%zu nodes not destroyed with the pool", at.size());
  for (auto &d : dtor_) CHECKF(d.second == 1, "node destroyed %d times", d.second);
  drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) for (int i = 0; i < 50; ++i) { round<1>(r); round<2>(r); round<3>(r); round<7>(r); round<40>(r); } }
