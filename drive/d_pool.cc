// Pool / GCPool against an explicit model of live objects
#include "drv.h"
#include <stddef.h>
#include "pool.h"
using namespace pocketkaldi;
static std::map<long, int> ctor_, dtor_; static std::map<void *, long> at; static long nid = 0;
struct Obj { long id; uint64_t pad[2]; std::vector<int> own;
  Obj(long a, long b) : id(nid++) { CHECKF(!at.count(this), "object %ld constructed in the slot of live object %ld", id, at[this]); at[this] = id; ++ctor_[id]; pad[0] = a; pad[1] = b; own.assign(3, (int)id); }
  ~Obj() { auto it = at.find(this); CHECKF(it != at.end(), "destructor run on a slot without a live object"); CHECKF(it->second == id, "destructor on overwritten object"); ++dtor_[id]; at.erase(it); } };
struct Triv { long id; int x[5]; Triv(long a) : id(a) { for (int &i : x) i = (int)a; } };
template <int B> static void pool_round(Rng &r) {
  at.clear(); ctor_.clear(); dtor_.clear(); nid = 0;
  drv_begin("Pool<Obj,%d>:", B);
  { Pool<Obj, B> p; std::vector<Obj *> live; std::vector<std::pair<long, long> > args; int n = r.range(1, B * 5 + 20), pa = r.range(40, 90);
    int cap0 = -1;
    for (int i = 0; i < n; ++i) {
      int op = r.below(100);
      if (op < pa) { long a = r.below(1000), b = r.below(1000); drv_log(" alloc"); Obj *o = p.Alloc(a, b); CHECKF((long)o->pad[0] == a && (long)o->pad[1] == b, "constructor arguments"); live.push_back(o); }
      else if (op < 97) { if (live.empty()) continue; int k = r.below(live.size()); drv_log(" free#%d", k); p.Dealloc(live[k]); live.erase(live.begin() + k); }
      else if (r.chance(25)) { drv_log(" clear"); p.Clear(); live.clear(); CHECKF(at.empty(), "Clear left %zu objects undestroyed", at.size()); }
      CHECKF(p.allocated_nodes() == (int)live.size(), "allocated_nodes() = %d with %zu live objects", p.allocated_nodes(), live.size());
      CHECKF(p.free_nodes() >= 0 && (p.free_nodes() + p.allocated_nodes()) % B == 0, "free_nodes() = %d, allocated_nodes() = %d, block size %d", p.free_nodes(), p.allocated_nodes(), B);
      if (cap0 >= 0) CHECKF(p.free_nodes() + p.allocated_nodes() >= cap0, "capacity shrank");
      cap0 = p.free_nodes() + p.allocated_nodes();
      CHECKF(at.size() == live.size(), "%zu constructed objects, %zu live", at.size(), live.size());
      for (Obj *o : live) CHECKF(o->own.size() == 3 && o->own[1] == (int)o->id, "contents of a live object changed");
      std::set<Obj *> s(live.begin(), live.end()); CHECKF(s.size() == live.size(), "one slot handed out twice");
    }
    drv_log(" destroy"); }
  CHECKF(at.empty(), "%zu objects not destroyed with the pool", at.size());
  for (auto &c : ctor_) CHECKF(c.second == 1 && dtor_[c.first] == 1, "object %ld: %d constructions, %d destructions", c.first, c.second, dtor_[c.first]);
  drv_end();
}
template <int B> static void triv_round(Rng &r) {
  drv_begin("Pool<trivial,%d>:", B); Pool<Triv, B> p; std::map<Triv *, long> live; int n = r.range(1, B * 6 + 10); long id = 0, maxlive = 0;
  for (int i = 0; i < n; ++i) {
    if (live.empty() || r.chance(60)) { Triv *t = p.Alloc(++id); CHECKF(!live.count(t), "slot of a live object handed out"); for (auto &l : live) CHECKF((char *)t + sizeof(Triv) <= (char *)l.first || (char *)l.first + sizeof(Triv) <= (char *)t, "slots overlap"); live[t] = id; drv_log(" +"); }
    else { auto it = live.begin(); std::advance(it, r.below(live.size())); p.Dealloc(it->first); live.erase(it); drv_log(" -"); }
    if ((long)live.size() > maxlive) maxlive = live.size();
    for (auto &l : live) CHECKF(l.first->id == l.second && l.first->x[4] == (int)l.second, "live object changed");
    CHECKF(p.allocated_nodes() == (int)live.size(), "allocated_nodes() = %d with %zu live", p.allocated_nodes(), live.size());
    CHECKF(p.free_nodes() + p.allocated_nodes() <= ((maxlive + B - 1) / B + 1) * B, "slots are not reused: capacity %d for at most %ld live objects", p.free_nodes() + p.allocated_nodes(), maxlive);
    if (r.chance(2)) { p.Clear(); live.clear(); maxlive = p.free_nodes(); }
  }
  drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) { pool_round<1>(r); pool_round<2>(r); pool_round<3>(r); pool_round<8>(r); pool_round<64>(r); triv_round<1>(r); triv_round<4>(r); triv_round<16>(r); } }
