// vf-noinline: std::vector<N\*, std::allocator<N\*> ?>::(back|pop_back|empty|begin\(\)$|end\(\)$)
// vf-noinline: __normal_iterator<N\*\*, .*>::operator(\*|\+\+)
// vf-noinline: operator!=<N\*\*
#include "vfstd.h"
#include <new>
#include "pool.h"
using namespace pocketkaldi;
// All slots of the pool lie in gMem in block order. One arbitrary slot t, and one arbitrary node q that links to t, are
// followed through the collection; gK is an arbitrary set that contains the roots and is closed under links.
struct N;
static N *gMem; static long *gPrev; static bool *gK; static long gUsed, gT, gQ;
static bool gLive0, gLive, gRoot; static int gColl, gDead;
enum { MARKED = Collectable::kMarked, FREED = Collectable::kFreed, UNMARKED = Collectable::kUnmarked };
struct N : public Collectable {
  long val;
  N(long v) : val(v) {}
  ~N() {}
  N *previous() const { long p = gPrev[this - gMem]; return p < 0 ? nullptr : gMem + p; }
  void OnCollect() override {
    if (this != gMem + gT) return;
    vf_assert(gLive && gColl == 0, "a live node is notified, once");
    ++gColl;
  }
};
#define BS 4096
typedef GCPool<N, BS> P;
// contracts of Pool (proved in C02)
static P *gP; static int gNewState; static N *gNew;
extern "C" void SC_dealloc(void *p, N *x) {
  vf_assert(p == gP, "this pool");
  vf_assert(x->is_freed(), "a released node is flagged");
  if (x == gMem + gT) { vf_assert(gLive, "a live node is released, once"); gLive = false; ++gDead; }
}
extern "C" N *SC_alloc(void *p, long *v) { vf_assert(p == gP, "this pool"); gLive = true; N *x = gMem + gT; x->Free(); x->val = *v; return x; }   // (the constructor of Collectable leaves it flagged as free)
// contracts of std::vector<N *> for the vectors of the collection itself: multisets, known by their size and the number of times t is in them
struct MS { void *v; long n, t; };
static MS gW, gL; static N *gRoots0; static long gNRoots; static N *gElem; static bool gPicked; static long gLeft, gLeftT;
static bool node_ok(N *x) { long s = x - gMem; return 0 <= s && s < gUsed && x == gMem + s; }
extern "C" void SC_vrange(void *v, N **b, N **e, void *a) {
  vf_assert((void *)b == (void *)gRoots0 && e - b == gNRoots && !gW.v, "the work list starts with the roots");
  gW.v = v; gW.n = gNRoots; gW.t = vf_any<int>(); vf_assume((gW.t >= 0) & (gW.t <= gW.n) & (gRoot == (gW.t > 0)));
}
extern "C" void SC_vcopy(void **v, void **w) { v[0] = w[0]; v[1] = w[1]; v[2] = w[1]; }
extern "C" void SC_vnew(void *v) { vf_assert(!gL.v, "one list of nodes to free"); gL.v = v; gL.n = gL.t = 0; }
extern "C" void SC_vdel(void *v) {}
extern "C" void SC_push(void *v, N **x) {
  vf_assert(node_ok(*x), "a node of the pool");
  if (v == gW.v) {
    vf_assert(gK[*x - gMem] && !(*x)->is_freed(), "only reachable live nodes come into the work list");
    ++gW.n; if (*x == gMem + gT) ++gW.t;
  } else {
    vf_assert(v == gL.v, "the list of nodes to free");
    ++gL.n; if (*x == gMem + gT) ++gL.t;
  }
}
extern "C" N **SC_back(void *v) {
  vf_assert(v == gW.v && gW.n > 0, "an element of the work list");
  long s = vf_any<long>(); vf_assume(0 <= s && s < gUsed); gElem = gMem + s;
  vf_assume(gK[s] & !gElem->is_freed());
  vf_assume((s == gT) & (gW.t > 0) | (s != gT) & (gW.n > gW.t));
  return &gElem;
}
extern "C" void SC_pop(void *v) { vf_assert(v == gW.v && gW.n > 0, "an element of the work list"); --gW.n; if (gElem == gMem + gT) --gW.t; }
extern "C" bool SC_empty(void *v) { vf_assert(v == gW.v, "the work list"); return gW.n == 0; }
extern "C" N **SC_begin(void *v) { vf_assert(v == gL.v, "the list of nodes to free"); gLeft = gL.n; gLeftT = gL.t; gPicked = false; return &gElem; }
extern "C" N **SC_end(void *v) { vf_assert(v == gL.v, "the list of nodes to free"); return nullptr; }
extern "C" bool SC_ne(void *a, void *b) { return gLeft > 0; }
extern "C" N **SC_deref(void *a) {
  if (!gPicked) {
    long s = vf_any<long>(); vf_assume(0 <= s && s < gUsed); gElem = gMem + s; gPicked = true;
    vf_assume((s == gT) & (gLeftT > 0) | (s != gT) & (gLeft > gLeftT));
  }
  return &gElem;
}
extern "C" void *SC_inc(void *a) { --gLeft; if (gElem == gMem + gT) --gLeftT; gPicked = false; return a; }

extern void *gNvt[] asm("_ZTV1N");
static signed char *gState;
static P *pool() {
  long nb = vf_any<int>(); vf_assume(nb >= 1 && nb < 100000);
  int cb = vf_any<int>(), cp = vf_any<int>(), nf = vf_any<int>();
  vf_assume((0 <= cb) & (cb < nb) & (0 <= cp) & (cp <= BS) & (nf >= 0) & (nf < 100000000));
  gUsed = (long)cb * BS + cp;
  gMem = vf_array<N>(nb * BS); gElem = gMem; vf_constfield_(gMem, gNvt + 2); vf_touch_(&gMem->state_, 'b'); vf_touch_(&gMem->val, 'l');
  gPrev = vf_array<long>(nb * BS); vf_touch_(gPrev, 'l');
  gK = vf_array<bool>(nb * BS); vf_touch_(gK, 'b');
  P *p = gP = vf_array<P>(1);
  p->current_block_ = cb; p->current_pos_ = cp;
  N **B = vf_array<N *>(nb), **Fr = vf_array<N *>(nf); vf_ptrfield_(B, gMem); vf_ptrfield_(Fr, gMem);
  vf_set_vector(p->blocks_, B, nb); vf_set_vector(p->free_, Fr, nf);
  N *M = gMem; long *Pv = gPrev, u = gUsed; bool *K = gK;
  vf_assume(vf_forall(0, nb, [=](long b) -> bool { return B[b] == M + b * BS; }));
  // links go to live nodes
  vf_assume(vf_forall(0, u, [=](long s) -> bool { long r = Pv[s]; return (M[s].state_ == FREED) | (r == -1) | ((0 <= r) & (r < u) & (M[r].state_ != FREED)); }));
  gT = vf_any<long>(); gQ = vf_any<long>(); vf_assume(0 <= gT && gT < u && 0 <= gQ && gQ < u && gT != gQ);
  gLive = gLive0 = gMem[gT].state_ != FREED; gColl = gDead = 0; gW.v = gL.v = nullptr;
  return p;
}
extern "C" void H_gc() {
  P *p = pool();
  N *M = gMem; long *Pv = gPrev, u = gUsed, t = gT, q = gQ; bool *K = gK; int cb = p->current_block_;
  vf_assume(vf_forall(0, u, [=](long s) -> bool { long r = Pv[s]; return (M[s].state_ == FREED) | !K[s] | (r == -1) | K[r]; }));
  N *M0 = vf_snapshot(gMem);
  int st0 = M[t].state_, sq0 = M[q].state_; long v0 = M[t].val; bool live0 = gLive0, link = (sq0 != FREED) & (Pv[q] == t);
  gRoot = vf_any<bool>(); gNRoots = vf_any<int>(); vf_assume((gNRoots >= 0) & (!gRoot | (live0 & K[t] & (gNRoots > 0)))); bool root = gRoot;
  std::vector<N *> *roots = vf_array<std::vector<N *> >(1);
  N **R = vf_array<N *>(gNRoots); vf_ptrfield_(R, gMem); vf_set_vector(*roots, R, gNRoots); gRoots0 = (N *)(void *)R;
  vf_inv("dead nodes stay dead, live ones live", [=](long k) -> bool { return vf_forall(0, u, [=](long s) -> bool { return (M[s].state_ == FREED) == (M0[s].state_ == FREED); }); });
  vf_inv("unmarked so far, by block", [=](long k) -> bool { return M[t].state_ == ((t < k * BS) & live0 ? (int)UNMARKED : st0) && M[q].state_ == ((q < k * BS) & (sq0 != FREED) ? (int)UNMARKED : sq0); });
  vf_inv_o("unmarked so far, in the block", [=](long k, long b) -> bool { return M[t].state_ == ((t < b * BS + k) & live0 ? (int)UNMARKED : st0) && M[q].state_ == ((q < b * BS + k) & (sq0 != FREED) ? (int)UNMARKED : sq0); });
  vf_inv("the states of t", [=](long k) -> bool { int s = M[t].state_; return (live0 & ((s == MARKED) | (s == UNMARKED))) | (!live0 & (s == FREED)); });
  vf_inv("the states of q", [=](long k) -> bool { int s = M[q].state_; return ((sq0 != FREED) & ((s == MARKED) | (s == UNMARKED))) | ((sq0 == FREED) & (s == FREED)); });
  vf_inv("the work list", [=](long k) -> bool { return gW.n >= gW.t && gW.t >= 0; });
  vf_inv("a root is marked or waits", [=](long k) -> bool { return !root || M[t].state_ == MARKED || gW.t > 0; });
  vf_inv("what a marked node links to is marked or waits", [=](long k) -> bool { return !(link && M[q].state_ == MARKED) || M[t].state_ == MARKED || gW.t > 0; });
  vf_inv("only members of the closed set are marked", [=](long k) -> bool { return M[t].state_ != MARKED || K[t]; });
  vf_inv("not yet swept", [=](long k) -> bool { return gColl == 0 && gL.t == 0; });
  vf_inv("alive", [=](long k) -> bool { return gLive == live0 && gDead == 0; });
  vf_inv("the list to free", [=](long k) -> bool { return gL.n >= gL.t; });
#define SWEPT(pos) ((M[t].state_ == MARKED) | (M[t].state_ == FREED) | ((pos) <= t)) & (live0 | (M[t].state_ == FREED)) & (gColl == (live0 & (M[t].state_ == FREED))) & (gL.t == gColl) & (((pos) > t) | !live0 | (M[t].state_ != FREED)) & ((M[q].state_ == MARKED) | (M[q].state_ == FREED) | ((pos) <= q))
  vf_inv("swept so far, by block", [=](long k) -> bool { return SWEPT(k * BS); });
  vf_inv_o("swept so far, in the block", [=](long k, long b) -> bool { return SWEPT(b * BS + k); });
  vf_inv("swept", [=](long k) -> bool { return ((M[t].state_ == FREED) | (live0 & (M[t].state_ == MARKED))) & ((M[q].state_ == MARKED) | (M[q].state_ == FREED)) & (gColl == (live0 & (M[t].state_ == FREED))) & (gL.t == gColl); });
  vf_inv("released so far", [=](long k) -> bool { return (gLeft >= gLeftT) & (gLeftT >= 0) & (gLeftT <= gL.t) & (gDead == gL.t - gLeftT) & (gLive == (live0 & (gDead == 0))) & !gPicked; });
  vf_inv("contents", [=](long k) -> bool { return M[t].val == v0; });
  vf_cover("pre");
  p->GC(*roots);
  vf_inv_clear();
  bool kept = live0 && gLive;
  vf_assert(gLive == (live0 && M[t].state_ != FREED), "live exactly when not flagged");
  vf_assert(!root || kept, "a root is kept");
  vf_assert(!(link && M[q].state_ != FREED) || kept, "what a kept node links to is kept");
  vf_assert(!kept || K[t], "a kept node is in every set that contains the roots and is closed under links");
  vf_assert(!kept || (gColl == 0 && M[t].val == v0), "a kept node is unchanged and not notified");
  vf_assert(!live0 || kept || (gColl == 1 && gDead == 1), "any other live node is notified once and released once");
  vf_assert(live0 || (gColl == 0 && gDead == 0), "a node freed earlier is not touched");
}
extern "C" void H_gdealloc() {
  P *p = pool(); vf_assume(gLive0);
  int s0 = gMem[gQ].state_;
  vf_cover("pre");
  p->Dealloc(gMem + gT);
  vf_assert(!gLive && gDead == 1 && gMem[gT].is_freed() && gMem[gQ].state_ == s0, "released once, flagged, no other node touched");
}
extern "C" void H_galloc() {
  P *p = pool(); vf_assume(!gLive0);
  int s0 = gMem[gQ].state_; long v = vf_any<long>();
  vf_cover("pre");
  N *n = p->Alloc(v);
  vf_assert(n == gMem + gT && !n->is_freed() && n->val == v && gMem[gQ].state_ == s0, "a new node in use, no other node touched");
}
