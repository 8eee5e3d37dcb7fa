#include "vf.h"
#include "vfstd.h"
#include "fst.cc"
using namespace pocketkaldi;

// ---- a well-formed transducer of any size: block starts in state order, blocks not empty, labels sorted inside a block
struct View { FstArc *a; int *ix; float *fin; long na, ns; };
static View gV;
static void any_view(Fst *f) {
  View &V = gV;
  V.na = vf_any<int>(); V.ns = vf_any<int>();
  vf_assume(V.na >= 0 && V.ns >= 0 && V.na < 500000000 && V.ns < 500000000);
  V.a = vf_array<FstArc>(V.na); V.ix = vf_array<int>(V.ns); V.fin = vf_array<float>(V.ns);
  vf_touch_(&V.a[0].next_state, 'i'); vf_touch_(&V.a[0].input_label, 'i'); vf_touch_(&V.a[0].output_label, 'i'); vf_touch_(&V.a[0].weight, 'f');
  vf_touch_(V.ix, 'i'); vf_touch_(V.fin, 'f');
  vf_set_vector(f->arcs_, V.a, V.na); vf_set_vector(f->state_idx_, V.ix, V.ns); vf_set_vector(f->final_, V.fin, V.ns);
  f->start_state_ = vf_any<int>();
}
// indices of states with arcs are inside the arc array and increase with the state
static bool WF() {
  int *ix = gV.ix; long na = gV.na, ns = gV.ns;
  return vf_forall(0, ns, [=](long t) -> bool { return (ix[t] >= -1) & (ix[t] < na); })
       & vf_forall2(0, ns, [=](long s, long t) -> bool { return !((s < t) & (ix[s] >= 0) & (ix[t] >= 0)) | (ix[s] < ix[t]); });
}
// arc a is an arc of state s
static bool owns(long s, long a) {
  int *ix = gV.ix; long ns = gV.ns;
  return (ix[s] >= 0) & (a >= ix[s]) & (a < gV.na) & vf_forall(s + 1, ns, [=](long t) -> bool { return (ix[t] < 0) | (a < ix[t]); });
}

extern "C" void H_count() {
  Fst *f = vf_array<Fst>(1);
  any_view(f);
  vf_assume(WF());
  int s = vf_any<int>(); vf_assume(0 <= s && s < gV.ns);
  long a = vf_any<int>();
  int *ix = gV.ix; long ns = gV.ns;
  vf_inv("no state with arcs in between", [=](long k) -> bool { return vf_forall(s + 1, s + 1 + k, [=](long t) -> bool { return ix[t] < 0; }); });
  vf_cover("pre");
  int c = f->CountArcs(s);
  vf_cover("post");
  vf_inv_clear();
  vf_assert(c >= 0, "the number of arcs is not negative");
  vf_assert((ix[s] >= 0) == (c > 0), "a state has arcs exactly when it has a block");
  vf_assert((ix[s] < 0) | (ix[s] + c <= gV.na), "the block is inside the arc array");
  if (vf_any<bool>()) {
    vf_assume(c > 0 && ix[s] <= a && a < ix[s] + c);
    vf_assert(owns(s, a), "every counted arc is an arc of the state");
  } else {
    vf_assume(owns(s, a));
    vf_assert(ix[s] <= a && a < ix[s] + c, "every arc of the state is counted");
  }
}

// ---- contract of CountArcs for its callers: proved by H_count
static bool sorted_block(long s, long b, long e) {     // labels do not decrease inside [b, e)
  FstArc *A = gV.a;
  return vf_forall2(b, e, [=](long i, long j) -> bool { return !(i <= j) | (A[i].input_label <= A[j].input_label); });
}
extern "C" int SC_count(Fst *f, int s) {
  vf_assert(0 <= s && s < gV.ns, "CountArcs: state in range");
  int c = vf_gget(1, s);      // a function of the state
  vf_assume(c >= 0 && (gV.ix[s] >= 0) == (c > 0) && ((gV.ix[s] < 0) | (gV.ix[s] + c <= gV.na)));
  vf_assume(gV.ix[s] < 0 || sorted_block(s, gV.ix[s], gV.ix[s] + c));
  return c;
}
extern "C" void H_get() {
  Fst *f = vf_array<Fst>(1);
  any_view(f);
  int s = vf_any<int>(), q = vf_any<int>();
  vf_assume(0 <= s && s < gV.ns);
  FstArc *A = gV.a; long na = gV.na;
  int c = SC_count(f, s), b = gV.ix[s];
  FstArc out; out.next_state = out.input_label = out.output_label = -5; out.weight = 0.5f;
  vf_inv_pi("search interval", [=](long k, void *first, long len) -> bool {
    long lo = (FstArc *)first - A;
    return (len >= 0) & (lo >= b) & (lo + len <= b + c)
         & vf_forall(b, lo, [=](long i) -> bool { return A[i].input_label < q; })
         & vf_forall(lo + len, b + c, [=](long i) -> bool { return A[i].input_label >= q; });
  });
  vf_cover("pre");
  bool ok = f->Fst::GetArc(s, q, &out);
  vf_cover("post");
  vf_inv_clear();
  if (ok) {
    vf_assert(out.input_label == q, "the arc found has the label");
    vf_assert(vf_exists(b, b + c, [=](long i) -> bool { return (A[i].next_state == out.next_state) & (A[i].input_label == out.input_label) & (A[i].output_label == out.output_label) & (A[i].weight == out.weight); }), "the arc found is an arc of the state");
    vf_assert(c > 0, "found only in a state with arcs");
  } else {
    vf_assert(c == 0 || vf_forall(b, b + c, [=](long i) -> bool { return A[i].input_label != q; }), "failure only without an arc with the label");
    vf_assert(out.next_state == -5 && out.input_label == -5 && out.output_label == -5 && out.weight == 0.5f, "failure leaves the result alone");
  }
  vf_assert(f->arcs_.size() == na, "the transducer is unchanged");
}
extern "C" void H_iter() {
  Fst *f = vf_array<Fst>(1);
  any_view(f);
  int s = vf_any<int>();
  vf_assume(0 <= s && s < gV.ns);
  vf_cover("pre");
  Fst::ArcIterator it = f->IterateArcs(s);
  int c = vf_gget(1, s);
  // after k calls of Next (representation: base_ + cnt_pos_ is the next arc)
  vf_assert(it.cnt_pos_ == 0 && it.total_ == c && (c == 0 || it.base_ == gV.ix[s]) && it.arcs_ == gV.a, "iteration starts at the first arc");
  int k = vf_any<int>(); vf_assume(0 <= k && k <= c);
  it.cnt_pos_ = k;
  const FstArc *p = it.Next();
  if (k < c) {
    vf_assert(p == gV.a + gV.ix[s] + k, "the next arc of the block in order");
    vf_assert(it.cnt_pos_ == k + 1, "one arc further");
  } else {
    vf_assert(p == nullptr, "the end of the block is reported");
    vf_assert(it.cnt_pos_ == k, "the iterator stays at the end");
  }
  vf_assert(it.total_ == c && (c == 0 || it.base_ == gV.ix[s]) && it.arcs_ == gV.a, "the block stays the same");
}
extern "C" void H_final() {
  Fst *f = vf_array<Fst>(1);
  any_view(f);
  int s = vf_any<int>(); vf_assume(0 <= s && s < gV.ns);
  vf_cover("pre");
  vf_assert(f->Fst::Final(s) == gV.fin[s], "final weight of the file");
  vf_assert(f->Fst::StartState() == f->start_state_, "start state of the file");
}
