#include "vfstd.h"
#include "fst.cc"
using namespace pocketkaldi;
// The transducer behind the cache: any function of state and label; the arc found carries the label looked for
static long key(long s, long l) { return s * 4294967296L + l; }
static const IFst *gFst;
// ghost maps: 1 success, 2 next state, 3 output label, 4 index of the weight in gW
static float *gW; static long gNW;
static long in_int(long v) { vf_assume(v >= -2147483648L && v <= 2147483647L); return v; }
static float weight(long k) { long i = vf_gget(4, k); vf_assume(0 <= i && i < gNW); return gW[i]; }
struct AnyFst : IFst {
  int StartState() const override { vf_assert(this == gFst, "the transducer behind the cache"); return in_int(vf_gget(6, 0)); }
  float Final(int s) const override { vf_assert(this == gFst, "the transducer behind the cache"); return gW[vf_gget(7, s)]; }
  bool GetArc(int s, int l, FstArc *arc) const override {
    vf_assert(this == gFst, "the transducer behind the cache");
    long k = key(s, l);
    if (!vf_gget(1, k)) {      // nothing is promised about the arc of a failed look-up
      arc->next_state = vf_any<int>(); arc->input_label = vf_any<int>(); arc->output_label = vf_any<int>(); arc->weight = vf_any<float>();
      return false;
    }
    arc->next_state = in_int(vf_gget(2, k)); arc->input_label = l; arc->output_label = in_int(vf_gget(3, k)); arc->weight = weight(k);
    return true;
  }
};
typedef std::pair<int, FstArc> Item;
static long gN; static Item *gB;
static bool ok_entry(long j) {
  long k = key(gB[j].first, gB[j].second.input_label);
  return (gB[j].first == -1) | ((gB[j].first >= 0) & (gB[j].second.input_label >= 0) & (vf_gget(1, k) != 0) & (gB[j].second.next_state == vf_gget(2, k)) & (gB[j].second.output_label == vf_gget(3, k)) & (gB[j].second.weight == gW[vf_gget(4, k)]));
}
static CachedFst *cached() {
  for (int i = 1; i < 8; ++i) vf_gget(i, 0);      // make the ghost maps exist
  AnyFst *f = new (vf_array<AnyFst>(1)) AnyFst(); gFst = f;
  gNW = vf_any<long>(); vf_assume(gNW > 0); gW = vf_array<float>(gNW); vf_touch_(gW, 'f');
  CachedFst *c = vf_array<CachedFst>(1); c->fst_ = f;
  return c;
}
extern "C" void H_cget() {
  CachedFst *c = cached();
  gN = vf_any<int>(); vf_assume(gN > 0);
  gB = vf_array<Item>(gN);
  vf_touch_(&gB[0].first, 'i'); vf_touch_(&gB[0].second.next_state, 'i'); vf_touch_(&gB[0].second.input_label, 'i'); vf_touch_(&gB[0].second.output_label, 'i'); vf_touch_(&gB[0].second.weight, 'f');
  vf_set_vector(c->buckets_, gB, gN);
  vf_assume(vf_forall(0, gN, [=](long j) -> bool { return ok_entry(j); }));
  int s = vf_any<int>(), l = vf_any<int>(); vf_assume(s >= 0 && l >= 0);
  FstArc *arc = vf_array<FstArc>(1);
  vf_cover("pre");
  bool r = c->GetArc(s, l, arc);
  long k = key(s, l);
  vf_assert(r == (vf_gget(1, k) != 0), "the same success as without the cache");
  if (r) vf_assert(arc->next_state == vf_gget(2, k) && arc->input_label == l && arc->output_label == vf_gget(3, k) && arc->weight == weight(k), "the same arc as without the cache");
  vf_assert(vf_forall(0, gN, [=](long j) -> bool { return ok_entry(j); }), "every entry of the cache holds what the transducer gives");
}
extern "C" void H_cpass() {
  CachedFst *c = cached();
  int s = vf_any<int>(); vf_assume(vf_gget(7, s) >= 0 && vf_gget(7, s) < gNW);
  vf_cover("pre");
  vf_assert(c->StartState() == (int)vf_gget(6, 0), "the start state passes through");
  vf_assert(c->Final(s) == gW[vf_gget(7, s)], "final weights pass through");
}
extern "C" void H_cnew() {
  AnyFst *f = vf_array<AnyFst>(1); gFst = f;
  int n = vf_any<int>(); vf_assume(n > 0);
  CachedFst *c = vf_array<CachedFst>(1);
  vf_cover("pre");
  new (c) CachedFst(f, n);
  vf_assert(c->fst_ == f && (long)c->buckets_.size() == n, "the cache has the size asked for");
  long j = vf_any<int>(); vf_assume(0 <= j && j < n);
  vf_assert(c->buckets_[j].first == -1, "an empty cache");
}
