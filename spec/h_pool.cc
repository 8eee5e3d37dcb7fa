#include "vfstd.h"
#include <new>
#include <assert.h>
#include "pool.h"
using namespace pocketkaldi;
// All memory the pool ever gets: block b is gMem[b * BS .. (b + 1) * BS). Slots are numbered through all blocks.
struct Obj;
static Obj *gMem; static bool *gLive; static long gCap; static int gBlockNews, gBlockDels; 
static long gB; static bool gDelB; static long gQ = -1; static bool gLiveQ, gFreedQ;   // clearing is followed for one arbitrary slot gQ
static long gNB;
struct Obj {
  int a; float b;
  Obj(int x, float y) {
    long s = this - gMem;
    vf_assert(0 <= s && s < gCap && !gLive[s], "constructed in storage that no live object uses");
    gLive[s] = true; a = x; b = y;
  }
  ~Obj() {
    long s = this - gMem;
    if (gQ >= 0) {
      if (s == gQ) { vf_assert(gLiveQ, "the destructor runs on a live object, so exactly once"); gLiveQ = false; }
      return;
    }
    vf_assert(gLive[s], "the destructor runs on a live object, so exactly once");
    gLive[s] = false;
  }
};
#ifndef BS
#define BS 4096
#endif
typedef Pool<Obj, BS> P;
extern "C" void *SC_new(unsigned long n) {
  vf_assert(n == sizeof(Obj) * BS, "a block of this pool");
  ++gBlockNews;
  return gMem + (gNB++) * BS;
}
extern "C" void SC_delete(void *p) {
  long s = (Obj *)p - gMem;
  vf_assert(s >= 0 && s < gNB * BS && s % BS == 0 && (s != gB * BS || !gDelB), "every block is given back once");
  if (s == gB * BS) gDelB = true;
}
// contracts of std::unordered_set<Obj *>: a set of slots
static void *gSet;
extern "C" void SC_set_new(void *u) { gSet = u; gFreedQ = false; }
extern "C" void SC_set_del(void *u) {}
struct InsRes { void *it; bool fresh; };
extern "C" InsRes SC_set_insert(void *u, Obj *const *p) {
  vf_assert(u == gSet && gQ >= 0, "the set");
  if (*p == gMem + gQ) gFreedQ = true;
  InsRes r; r.it = gSet; r.fresh = true; return r;
}
extern "C" void *SC_set_find(void *u, Obj *const *p) {
  vf_assert(u == gSet, "the set");
  bool in = *p == gMem + gQ ? gFreedQ : vf_any<bool>();
  return in ? gSet : nullptr;
}
extern "C" void *SC_set_end(void *u) { return nullptr; }
// ---- the data invariant
static long *gWhere; static P *gP; static long gNF, gUsed; static Obj **gFree, **gBlocks; static bool *gLive0;
static bool slot_ok(long s) {      // a slot in use is live or in the free list, at the place the ghost map says
  long w = gWhere[s];
  return gLive[s] | ((0 <= w) & (w < gNF) & (gFree[w] == gMem + s));
}
static bool free_ok(long i) { long s = gFree[i] - gMem; return (0 <= s) & (s < gUsed) & !gLive[s] & (gWhere[s] == i) & (gFree[i] == gMem + s); }
static P *pool() {
  gNB = vf_any<int>(); vf_assume(gNB >= 1 && gNB < 100000);
  gCap = vf_any<long>(); vf_assume(gCap >= (gNB + 1) * BS && gCap < 1000000000);
  gMem = vf_array<Obj>(gCap); vf_touch_(&gMem[0].a, 'i'); vf_touch_(&gMem[0].b, 'f');
  gLive = vf_array<bool>(gCap); vf_touch_(gLive, 'b');
  gWhere = vf_array<long>(gCap); vf_touch_(gWhere, 'l');
  P *p = gP = vf_array<P>(1);
  int cb = vf_any<int>(), cp = vf_any<int>(), nf = vf_any<int>();
  vf_assume(0 <= cb && cb < gNB && 0 <= cp && cp <= BS && nf >= 0);
  p->current_block_ = cb; p->current_pos_ = cp;
  gUsed = (long)cb * BS + cp; gNF = nf; vf_assume(nf <= gUsed);
  gBlocks = vf_array<Obj *>(gNB); vf_ptrfield_(gBlocks, gMem);
  gFree = vf_array<Obj *>(nf); vf_ptrfield_(gFree, gMem);
  vf_set_vector(p->blocks_, gBlocks, gNB); vf_set_vector(p->free_, gFree, nf);
  Obj **B = gBlocks; Obj *M = gMem;
  vf_assume(vf_forall(0, gNB, [=](long b) -> bool { return B[b] == M + b * BS; }));
  vf_assume(vf_forall(0, nf, [=](long i) -> bool { return free_ok(i); }));
  vf_assume(vf_forall(0, gUsed, [=](long s) -> bool { return slot_ok(s); }));
  bool *L = gLive; vf_assume(vf_forall(gUsed, gCap, [=](long s) -> bool { return !L[s]; }));
  gLive0 = vf_snapshot(gLive); gBlockNews = 0;
  return p;
}
// the invariant afterwards (the ghost map is updated first by the harness)
static void check_inv() {
  P *p = gP;
  long nb = p->blocks_.size(), nf = p->free_.size(), cb = p->current_block_, cp = p->current_pos_;
  vf_assert(nb == gNB && 0 <= cb && cb < nb && 0 <= cp && cp <= BS, "the cursor stays inside the blocks");
  gUsed = cb * BS + cp; gNF = nf;
  gBlocks = &p->blocks_[0]; gFree = nf > 0 ? &p->free_[0] : gFree;
  long b = vf_any<int>(); vf_assume(0 <= b && b < nb);
  vf_assert(gBlocks[b] == gMem + b * BS, "the blocks keep their places");
  vf_assert(gUsed <= gCap, "slots in memory");
  long i = vf_any<int>();
  if (0 <= i && i < nf) vf_assert(free_ok(i), "the free list holds dead slots, each once");
  long s = vf_any<int>(); vf_assume(0 <= s && s < gCap);
  long w = gWhere[s];
  if (s < gUsed) vf_assert(gLive[s] || (0 <= w && w < gNF && gFree[w] == gMem + s), "every dead slot below the cursor is in the free list");
  else vf_assert(!gLive[s], "no live object beyond the cursor");
}
extern "C" void H_pnew() {
  P *p = pool();      // (the memory and the ghost state; the pool itself is new)
  gNB = 0; gLive0 = gLive; bool *L = gLive; long n = gCap;
  vf_havoc_array_(L); vf_assume(vf_forall(0, n, [=](long s) -> bool { return !L[s]; }));
  vf_cover("pre");
  new (p) P();
  vf_assert(p->allocated_nodes() == 0 && gBlockNews == 1, "an empty pool of one block");
  check_inv();
}
extern "C" void H_palloc() {
  P *p = pool();
  int x = vf_any<int>(); float y = vf_any<float>();
  int n0 = p->allocated_nodes();
  vf_assert(n0 == gUsed - gNF, "the number of live objects");
  Obj *M0 = vf_snapshot(gMem);
  vf_cover("pre");
  Obj *o = p->Alloc(x, y);
  long r = o - gMem;
  vf_assert(0 <= r && r < gCap && !gLive0[r] && gLive[r] && o->a == x && o->b == y, "a new object, constructed from the arguments");
  long s = vf_any<int>(); vf_assume(0 <= s && s < gCap && s != r);
  vf_assert(gLive[s] == gLive0[s] && (!gLive0[s] || (gMem[s].a == M0[s].a && gMem[s].b == M0[s].b)), "every other live object keeps its contents");
  vf_assert(p->allocated_nodes() == n0 + 1, "one more object");
  vf_assert(gBlockNews <= 1, "at most one new block");
  check_inv();
}
extern "C" void H_pdealloc() {
  P *p = pool();
  long r = vf_any<int>(); vf_assume(0 <= r && r < gUsed && gLive[r]);
  Obj *M0 = vf_snapshot(gMem);
  int n0 = p->allocated_nodes();
  vf_cover("pre");
  p->Dealloc(gMem + r);
  vf_assert(!gLive[r], "its destructor ran (on a live object, so once)");
  long s = vf_any<int>(); vf_assume(0 <= s && s < gCap && s != r);
  vf_assert(gLive[s] == gLive0[s] && (!gLive0[s] || (gMem[s].a == M0[s].a && gMem[s].b == M0[s].b)), "every other live object keeps its contents");
  vf_assert(p->allocated_nodes() == n0 - 1, "one object less");
  gWhere[r] = p->free_.size() - 1;
  check_inv();
}

#define CLEAR_INVARIANTS \
  gQ = vf_any<long>(); vf_assume(0 <= gQ && gQ < gUsed); gLiveQ = gLive[gQ]; \
  long q = gQ, w = gWhere[q], cb = p->current_block_, nf = gNF; bool live = gLiveQ; Obj **Fr = gFree; Obj *Mq = gMem + q; \
  vf_assume(live || (0 <= w && w < nf && Fr[w] == Mq)); \
  vf_assume(vf_forall(0, nf, [=](long i) -> bool { return (Fr[i] == Mq) == ((!live) & (i == w)); })); \
  vf_inv("released slots so far", [=](long k) -> bool { return gFreedQ == ((!live) & (w < k)); }); \
  vf_inv("released slots", [=](long k) -> bool { return gFreedQ == !live; }); \
  vf_inv("the object is still there", [=](long k) -> bool { return gLiveQ == live; }); \
  vf_inv("destroyed so far, block by block", [=](long k) -> bool { return gLiveQ == (live & (q >= k * BS)); }); \
  vf_inv_o("destroyed so far in this block", [=](long k, long b) -> bool { return gLiveQ == (live & (q >= b * BS + k)); }); \
  vf_inv("destroyed so far in the last block", [=](long k) -> bool { return gLiveQ == (live & (q >= cb * BS + k)); });
// whatever slot of the pool is looked at: it holds no live object afterwards, and its destructor ran once if it did before
extern "C" void H_pclear() {
  P *p = pool();
  CLEAR_INVARIANTS
  vf_cover("pre");
  p->Clear();
  vf_inv_clear();
  vf_assert(!gLiveQ, "every live object is destroyed");
  vf_assert(p->allocated_nodes() == 0 && p->current_block_ == 0 && p->current_pos_ == 0 && p->free_.size() == 0 && (long)p->blocks_.size() == gNB, "no object is left, the cursor is at the start, the blocks stay");
  long b = vf_any<int>(); vf_assume(0 <= b && b < gNB);
  vf_assert(p->blocks_[b] == gMem + b * BS, "the blocks keep their places");
}
extern void *gPvt[] asm("_ZTVN11pocketkaldi4PoolI3ObjLi4096EEE");
extern "C" void H_pdtor() {
  P *p = pool(); *(void ***)p = gPvt + 2;
  CLEAR_INVARIANTS
  long b = vf_any<int>(); vf_assume(0 <= b && b < gNB); gB = b; gDelB = false;
  vf_inv("blocks given back so far", [=](long k) -> bool { return gDelB == (b < k); });
  vf_cover("pre");
  p->~P();
  vf_inv_clear();
  vf_assert(!gLiveQ, "every live object is destroyed");
  vf_assert(gDelB, "every block is given back");
}
