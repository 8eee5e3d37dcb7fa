#include "h_fst.cc"
// ---- contracts of the plain transducer look-ups for one arbitrary word q (H_get): the arc index chosen for each state
static int gQ;
static bool *gBOK; static int *gBI;      // has an arc with label q / its index
static int *gCnt;                        // number of arcs (H_count)
static void any_index() {
  long ns = gV.ns, na = gV.na; int *ix = gV.ix; FstArc *A = gV.a; int q = gQ;
  bool *ok = gBOK = vf_array<bool>(ns); int *bi = gBI = vf_array<int>(ns); int *cn = gCnt = vf_array<int>(ns);
  vf_touch_(ok, 'b'); vf_touch_(bi, 'i'); vf_touch_(cn, 'i');
  vf_assume(vf_forall(0, ns, [=](long s) -> bool { return (cn[s] >= 0) & ((ix[s] >= 0) == (cn[s] > 0)) & ((ix[s] < 0) | (ix[s] + cn[s] <= na)); }));
  vf_assume(vf_forall(0, ns, [=](long s) -> bool { return !ok[s] | ((ix[s] >= 0) & (bi[s] >= ix[s]) & (bi[s] < ix[s] + cn[s]) & (A[bi[s]].input_label == q)); }));
}
extern "C" int SC_cnt(Fst *f, int s) {
  vf_assert(0 <= s && s < gV.ns, "state in range");
  return gCnt[s];
}
extern "C" bool SC_base(Fst *f, int s, int q, FstArc *arc) {
  vf_assert(0 <= s && s < gV.ns, "state in range");
  vf_assert(q == gQ, "the word looked for is passed on");
  if (!gBOK[s]) return false;
  *arc = gV.a[gBI[s]];
  return true;
}
// ---- the specification: result of the look-up of q from each state, defined along the backoff chain
static bool *gSOK; static int *gSN, *gSI, *gSO; static float *gSW;
static bool has_backoff(long s) { return (gV.ix[s] >= 0) && (gV.a[gV.ix[s]].input_label == 0); }
static void any_spec() {
  long ns = gV.ns;
  gSOK = vf_array<bool>(ns); gSN = vf_array<int>(ns); gSI = vf_array<int>(ns); gSO = vf_array<int>(ns); gSW = vf_array<float>(ns);
  vf_touch_(gSOK, 'b'); vf_touch_(gSN, 'i'); vf_touch_(gSI, 'i'); vf_touch_(gSO, 'i'); vf_touch_(gSW, 'f');
}
extern "C" bool SC_rec(LmFst *f, int s, int q, FstArc *arc) {
  vf_assert(0 <= s && s < gV.ns, "state in range");
  vf_assert(q == gQ, "the word looked for is passed on");
  if (!gSOK[s]) return false;
  arc->next_state = gSN[s]; arc->input_label = gSI[s]; arc->output_label = gSO[s]; arc->weight = gSW[s];
  return true;
}
extern void *gLmVt[] asm("_ZTVN11pocketkaldi5LmFstE");
static long gNB; static FstArc *gB;
static LmFst *any_lm() {
  LmFst *f = vf_array<LmFst>(1);
  *(void ***)f = gLmVt + 2;
  any_view(f);
  vf_assume(WF());
  gNB = vf_any<int>(); vf_assume(gNB >= 0);
  gB = vf_array<FstArc>(gNB);
  vf_touch_(&gB[0].next_state, 'i'); vf_touch_(&gB[0].input_label, 'i'); vf_touch_(&gB[0].output_label, 'i'); vf_touch_(&gB[0].weight, 'f');
  vf_set_vector(f->bucket_0_, gB, gNB);
  // successors of backoff arcs are states
  long ns = gV.ns; int *ix = gV.ix; FstArc *A = gV.a;
  vf_assume(vf_forall(0, ns, [=](long s) -> bool { return (ix[s] < 0) | ((A[ix[s]].next_state >= 0) & (A[ix[s]].next_state < ns)); }));
  return f;
}
extern "C" void H_lmget() {
  gQ = vf_any<int>();
  LmFst *f = any_lm();
  any_index(); any_spec();
  int s = vf_any<int>(); vf_assume(0 <= s && s < gV.ns && gQ != 0);
  FstArc *A = gV.a;
  // the direct table agrees with state 0 (proved for InitBucket0 by H_bucket; empty without it)
  if (gQ >= 0 && gQ < gNB && gB[gQ].input_label == gQ) {
    vf_assume(gBOK[0]);
    vf_assume(gB[gQ].next_state == A[gBI[0]].next_state && gB[gQ].output_label == A[gBI[0]].output_label && gB[gQ].weight == A[gBI[0]].weight);
  }
  FstArc out; out.next_state = out.input_label = out.output_label = -5; out.weight = 0.5f;
  vf_cover("pre");
  bool r = f->LmFst::GetArc(s, gQ, &out);
  vf_cover("post");
  if (gBOK[s]) {
    const FstArc &w = A[gBI[s]];
    vf_assert(r && out.next_state == w.next_state && out.input_label == gQ && out.output_label == w.output_label && out.weight == w.weight, "a word of the state itself gives its own arc");
  } else if (has_backoff(s)) {
    const FstArc &b = A[gV.ix[s]];
    int t = b.next_state;
    vf_assert(r == gSOK[t], "without the word the result is that of the backoff state");
    vf_assert(!r || (out.next_state == gSN[t] && out.input_label == gSI[t] && out.output_label == gSO[t]), "the arc of the backoff state");
    vf_assert(!r || out.weight == gSW[t] + b.weight, "the backoff weight is added");
  } else {
    vf_assert(!r, "failure at the end of the chain");
  }
}
// final weights along the chain
static float *gFW;
extern "C" float SC_final(LmFst *f, int s) { vf_assert(0 <= s && s < gV.ns, "state in range"); return gFW[s]; }
extern "C" void H_lmfinal() {
  LmFst *f = any_lm();
  any_index();
  gFW = vf_array<float>(gV.ns); vf_touch_(gFW, 'f');
  int s = vf_any<int>(); vf_assume(0 <= s && s < gV.ns);
  vf_cover("pre");
  float r = f->LmFst::Final(s);
  vf_cover("post");
  float own = gV.fin[s];
  if (std::isfinite(own)) vf_assert(r == own, "a final state keeps its weight");
  else if (has_backoff(s)) {
    int t = gV.a[gV.ix[s]].next_state;
    if (std::isfinite(gFW[t])) vf_assert(r == gFW[t] + gV.a[gV.ix[s]].weight, "the final weight of the backoff state with the backoff weight");
    else vf_assert(r == INFINITY, "no final weight on the chain");
  } else vf_assert(r == INFINITY, "no final weight at the end of the chain");
}
// the direct table of state 0
extern "C" void H_bucket() {
  LmFst *f = any_lm();
  vf_assume(gV.ns > 0);
  gQ = 1;
  any_index();
  FstArc *A = gV.a; int b = gV.ix[0], c = gCnt[0];
  vf_assume(c == 0 || vf_forall(b, b + c, [=](long i) -> bool { return (A[i].input_label >= 0) & (A[i].input_label < 1000000); }));
  vf_assume(c == 0 || vf_forall2(b, b + c, [=](long i, long j) -> bool { return !(i < j) | (A[i].input_label < A[j].input_label); }));
  vf_inv_i("largest label so far", [=](long k, int m) -> bool { return (m >= 0) & (m < 1000000) & ((c == 0) | vf_forall(b, b + k, [=](long i) -> bool { return A[i].input_label <= m; })); });
  vf_inv("arcs placed so far", [=](long k) -> bool {
    FstArc *B = f->bucket_0_.data();
    return (c == 0) | vf_forall(b, b + k, [=](long i) -> bool { int l = A[i].input_label; return (B[l].input_label == l) & (B[l].next_state == A[i].next_state) & (B[l].output_label == A[i].output_label) & (B[l].weight == A[i].weight); });
  });
  vf_inv("other entries are empty", [=](long k) -> bool {
    FstArc *B = f->bucket_0_.data(); long n = f->bucket_0_.size();
    return vf_forall(0, n, [=](long l) -> bool { return (B[l].input_label == -1) | vf_exists(b, b + k, [=](long i) -> bool { return (A[i].input_label == l) & (B[l].input_label == l); }); });
  });
  vf_cover("pre");
  f->InitBucket0();
  vf_cover("post");
  vf_inv_clear();
  FstArc *B = f->bucket_0_.data(); long n = f->bucket_0_.size();
  vf_assert(c == 0 || vf_forall(b, b + c, [=](long i) -> bool { int l = A[i].input_label; return (l < n) & (B[l].input_label == l) & (B[l].next_state == A[i].next_state) & (B[l].output_label == A[i].output_label) & (B[l].weight == A[i].weight); }), "every arc of state 0 is in the table");
  int l = vf_any<int>(); vf_assume(0 <= l && l < n && B[l].input_label == l);
  vf_assert(c > 0 && vf_exists(b, b + c, [=](long i) -> bool { return A[i].input_label == l; }), "nothing else is in the table");
}
// the difference model over the big model's result
static DeltaLmFst *any_delta(LmFst *lm, float **w, long *n) {
  DeltaLmFst *d = vf_array<DeltaLmFst>(1);
  Vector<float> *v = vf_array<Vector<float>>(1);
  *n = vf_any<int>(); vf_assume(*n > 0);
  *w = vf_array<float>(*n); vf_touch_(*w, 'f');
  v->data_ = *w; v->dim_ = *n;
  d->small_lm_ = v; d->lm_ = lm; d->bos_symbol_ = vf_any<int>(); d->eos_symbol_ = vf_any<int>();
  return d;
}
extern "C" void H_delta() {
  LmFst *lm = any_lm(); any_index(); any_spec();
  float *w; long n;
  DeltaLmFst *d = any_delta(lm, &w, &n);
  gQ = vf_any<int>();
  int s = vf_any<int>(); vf_assume(0 <= s && s < gV.ns && 0 < gQ && gQ < n);
  FstArc out; out.next_state = out.input_label = out.output_label = -5; out.weight = 0.5f;
  vf_cover("pre");
  bool r = d->DeltaLmFst::GetArc(s, gQ, &out);
  vf_cover("post");
  vf_assert(r == gSOK[s], "a word is found exactly when the big model has it");
  vf_assert(!r || (out.next_state == gSN[s] && out.input_label == gSI[s] && out.output_label == gSO[s]), "the arc of the big model");
  vf_assert(!r || out.weight == gSW[s] - w[gQ], "the small model's weight of the word is subtracted");
}
extern "C" void H_deltafinal() {
  LmFst *lm = any_lm(); any_index(); any_spec();
  gFW = vf_array<float>(gV.ns); vf_touch_(gFW, 'f');
  float *w; long n;
  DeltaLmFst *d = any_delta(lm, &w, &n);
  gQ = d->eos_symbol_;
  int s = vf_any<int>(); vf_assume(0 <= s && s < gV.ns && 0 < gQ && gQ < n);
  vf_assume(!gSOK[s] || (gSN[s] >= 0 && gSN[s] < gV.ns));
  vf_cover("pre");
  float r = d->DeltaLmFst::Final(s);
  vf_cover("post");
  if (gSOK[s]) vf_assert(r == gFW[gSN[s]] + gSW[s] - w[gQ], "final weight after the sentence end word, small model subtracted");
  else vf_assert(r == INFINITY, "no sentence end");
}
extern "C" void H_deltastart() {
  LmFst *lm = any_lm(); any_index(); any_spec();
  float *w; long n;
  DeltaLmFst *d = any_delta(lm, &w, &n);
  gQ = d->bos_symbol_;
  int s = lm->start_state_; vf_assume(0 <= s && s < gV.ns && gQ != 0);
  vf_cover("pre");
  if (gSOK[s]) vf_assert(d->DeltaLmFst::StartState() == gSN[s], "the start is the state after the sentence begin word");
  SymbolTable *t = vf_array<SymbolTable>(1);
  DeltaLmFst d2(d->small_lm_, lm, t);
  vf_assert(d2.bos_symbol_ == t->bos_id_ && d2.eos_symbol_ == t->eos_id_ && d2.lm_ == lm && d2.small_lm_ == d->small_lm_, "the sentence boundary words are those of the symbol table");
}
