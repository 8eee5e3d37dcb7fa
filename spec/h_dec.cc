// vf-link: fst.cc
// vf-noinline: __normal_iterator<pocketkaldi::Decoder::Token\*\*, .*>::operator\*
// vf-noinline: std::vector<pocketkaldi::Decoder::Token\*, .*>::operator\[\]
// vf-noinline: std::vector<pocketkaldi::Decoder::State, .*>::(back|pop_back|empty|size)\(
// vf-noinline: std::vector<pocketkaldi::Decoder::OLabel\*, .*>::push_back\(
// vf-noinline: std::unordered_map<int, pocketkaldi::Decoder::OLabel\*, .*>::

// The decoder. Tokens of a frame are the slots of gTok; one arbitrary token f with one arbitrary arc a is followed through the passes, and every insertion
// made by a pass must be a step of the graph (and of the language model) from the token at hand.
#include "vfstd.h"
#include "decoder.h"
#include "decoder.cc"
using namespace pocketkaldi;
typedef Decoder::Token Tok; typedef Decoder::State St; typedef Decoder::OLabel OL; typedef fst::StdArc Arc;
static Decoder *gD; static void *gFst;
// ---- the graph
static Arc *gA; static long *gBase, *gCnt, gNS, gNA; static float *gLL; static float *gLmW; static int *gLmN;
static long lmkey(int lm, int label) { return lm * 2147483648L + label; }
static void graph() {
  gNS = vf_any<int>(); gNA = vf_any<int>(); vf_assume((gNS > 0) & (gNA >= 0));
  gA = vf_array<Arc>(gNA); gBase = vf_array<long>(gNS); gCnt = vf_array<long>(gNS);
  vf_touch_(&gA->ilabel, 'i'); vf_touch_(&gA->olabel, 'i'); vf_touch_(&gA->weight, 'f'); vf_touch_(&gA->nextstate, 'i'); vf_touch_(gBase, 'l'); vf_touch_(gCnt, 'l');
  long ns = gNS, na = gNA, *B = gBase, *C = gCnt; Arc *A = gA;
  vf_assume(vf_forall(0, ns, [=](long s) -> bool { return (B[s] >= 0) & (C[s] >= 0) & (B[s] + C[s] <= na); }));
  vf_assume(vf_forall(0, na, [=](long j) -> bool { return (A[j].nextstate >= 0) & (A[j].nextstate < ns) & (A[j].ilabel >= 0) & (A[j].olabel >= 0); }));
  gLL = vf_array<float>(4294967296L); gLmW = vf_array<float>(1L << 62); gLmN = vf_array<int>(1L << 62); vf_touch_(gLL, 'f'); vf_touch_(gLmW, 'f'); vf_touch_(gLmN, 'i');
  int *L = gLmN; vf_assume(vf_forall(0, 1L << 62, [=](long k) -> bool { return L[k] >= 0; }));
}
static long gCur, gItS, gArc; static bool gMain, gEm;            // the token at hand, the state whose arcs are visited, the arc at hand
static long gF, gAi; static bool gPassed, gDone;            // the pair that is followed
struct It { long s, pos; };
static OL *gOl; static long gNOl; static Tok *gTok; static Tok **gP; static long gN;
extern "C" void SC_it(It *it, void *f, int s) { vf_assert(f == gFst && 0 <= s && s < gNS, "the arcs of a state of the graph"); it->s = s; it->pos = 0; gItS = s; }
extern "C" void SC_nop(void *) {}
extern "C" bool SC_done(It *it) { return it->pos >= gCnt[it->s]; }
extern "C" void SC_next(It *it) { if (gEm && (gMain & (gCur == gF) & (it->pos == gAi))) gPassed = true; ++it->pos; }
static float total(long i, long j) { return gTok[i].cost_ + gA[j].weight.Value() - gLL[gA[j].ilabel]; }
static float gM;
extern "C" Arc *SC_value(It *it) {
  vf_assert(it->pos < gCnt[it->s], "an arc of the state"); gArc = gBase[it->s] + it->pos;
  if (gEm && gCur >= 0) vf_assume((gA[gArc].ilabel == 0) | (total(gCur, gArc) >= gM));   // gM: an arbitrary lower bound of the scores of all alternatives
  return gA + gArc;
}
extern "C" Tok **SC_deref(Tok ***it) { gCur = *it - gP; gMain = true; return *it; }
extern "C" Tok **SC_at(std::vector<Tok *> *v, unsigned long i) { Tok **p = *(Tok ***)v; gCur = i; gMain = true; return p + i; }
extern "C" float SC_ll(Decoder *d, void *frame, int il) { vf_assert(d == gD && il > 0, "the score of a transition"); return gLL[il]; }
extern "C" int SC_lm(Decoder *d, int lm, int label, float *w) { vf_assert(d == gD && lm >= 0, "a state of the language model"); *w = gLmW[lmkey(lm, label)]; return gLmN[lmkey(lm, label)]; }
static bool gLmOn;
static void is_step(St s, int label, OL *prev, float cost, float ac) {
  const Tok &t = gTok[gCur]; const Arc &a = gA[gArc];
  vf_assert(gItS == t.state_.hclg_state_, "an arc of the state of the token at hand");
  vf_assert(s.hclg_state_ == a.nextstate, "to the target of the arc");
  vf_assert(s.lm_state_ == (gLmOn ? gLmN[lmkey(t.state_.lm_state_, a.olabel)] : t.state_.lm_state_), "with the step of the language model");
  vf_assert(label == a.olabel && prev == t.olabel_, "the label of the arc behind the labels of the token");
  vf_assert(cost == t.cost_ + a.weight.Value() + ac + (gLmOn ? gLmW[lmkey(t.state_.lm_state_, a.olabel)] : 0), "the cost is that of the token, the arc, the score of the frame and the language model");
}
static void tokens(long n) {
  gN = n; gTok = vf_array<Tok>(n + 1); gP = vf_array<Tok *>(n + 1); vf_ptrfield_(gP, gTok); Tok *T = gTok, **P = gP; long ns = gNS;
  vf_touch_(&gTok->cost_, 'f'); vf_touch_(&gTok->state_.hclg_state_, 'i'); vf_touch_(&gTok->state_.lm_state_, 'i');
  long no = vf_any<int>(); vf_assume(no > 0); gNOl = no; gOl = vf_heap<OL>(no); vf_ptrfield_(&gTok->olabel_, gOl);
  vf_assume(vf_forall(0, n + 1, [=](long i) -> bool { return P[i] == T + i; }));
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return (T[i].state_.hclg_state_ >= 0) & (T[i].state_.hclg_state_ < ns) & (T[i].state_.lm_state_ >= 0); }));
}
static Decoder *decoder() {
  Decoder *d = gD = vf_array<Decoder>(1); graph();
  gFst = vf_array<long>(1); *(void **)&d->fst_ = gFst;
  gLmOn = vf_any<bool>(); *(void **)&d->delta_lm_fst_ = gLmOn ? (void *)vf_array<CachedFst>(1) : nullptr;
  gCur = -1; gMain = gPassed = gDone = false;
  return d;
}
// ---- the emitting pass
static float gWC, gAB; static long gBest; static int gFreed; static bool gCleared, gCut;
extern "C" void SC_clear(void *h) { vf_assert(h == &gD->state_idx_, "the index of the states"); gCleared = true; }
extern "C" double SC_cutoff(Decoder *d, float *ab, Tok **best) {
  vf_assert(d == gD && gN > 0 && (long)d->prev_toks_.size() == gN, "the cutoff of the old tokens");
  gCut = true; *ab = gAB; *best = gTok + gBest; gCur = gBest; gMain = false; return gWC;
}
extern "C" bool SC_insert_e(Decoder *d, St s, int label, OL *prev, float cost) {
  vf_assert(d == gD && gCleared && gMain && 0 <= gCur && gCur < gN, "into the empty index");
  vf_assert(gA[gArc].ilabel > 0, "only arcs that consume a frame");
  vf_assert(!((gCur == gF) & (gFreed > 0)), "not from a released token");
  vf_assert(gTok[gCur].cost_ <= gWC, "not from a pruned token");
  is_step(s, label, prev, cost, -gLL[gA[gArc].ilabel]);
  if ((gCur == gF) & (gArc == gBase[gItS] + gAi)) gDone = true;
  return vf_any<bool>();
}
extern "C" void SC_release(void *p, Tok *t) {
  vf_assert(p == &gD->toks_pool_, "the pool of the tokens");
  long i = t - gTok; vf_assert(0 <= i && i < gN, "an old token");
  if (i == gF) { vf_assert(gFreed == 0, "released once"); ++gFreed; }
}
extern "C" void H_emit() {
  gEm = true;
  Decoder *d = decoder(); long n = vf_any<int>(); vf_assume(n >= 0); tokens(n);
  vf_set_vector(d->toks_, gP, n); Tok **Q = vf_array<Tok *>(5); vf_set_vector(d->prev_toks_, Q, 0);
  gF = vf_any<int>(); gAi = vf_any<int>(); gBest = vf_any<int>(); gWC = vf_any<float>(); gAB = vf_any<float>(); gM = vf_any<float>();
  long f = gF, a = gAi; vf_assume((0 <= f) & ((f < n) | ((n == 0) & (f == 0))) & (a >= 0)); vf_assume((n == 0) | ((0 <= gBest) & (gBest < n)));
  Tok *T = gTok; long sf = T[f].state_.hclg_state_; vf_assume(n == 0 || a < gCnt[sf]);
  vf_assume((gAB >= 0) & (gM + gAB < INFINITY)); gFreed = 0; gCleared = gCut = false;
  float tot = n == 0 ? 0 : total(f, gBase[sf] + a), wc = gWC, lo = gM + gAB; bool in = n > 0 && T[f].cost_ <= wc, em = n > 0 && gA[gBase[sf] + a].ilabel != 0;
  vf_inv("released so far", [=](long k) -> bool { return (gFreed == (k > f)); });
  vf_inv_o("released so far, in the loop over arcs", [=](long k, long o) -> bool { return (gFreed == (o > f)); });
  vf_inv("nothing released", [=](long k) -> bool { return (gFreed == 0) & !gDone & !gPassed & !gMain & (gCur == gBest); });
  vf_inv("passed so far", [=](long k) -> bool { return (gPassed == ((k > f) & in)); });
  vf_inv_o("passed so far, in the loop over arcs", [=](long k, long o) -> bool { return (gPassed == (((o > f) | ((o == f) & (k > a))) & in)); });
  vf_inv("arcs of the token at hand", [=](long k) -> bool { return gMain & (gCur >= 0) & (gCur < gN) & (gItS == gTok[gCur].state_.hclg_state_); });
  vf_inv_o("token at hand", [=](long k, long o) -> bool { return gMain & (gCur == o); });
  vf_inv("done", [=](long k) -> bool { return !gDone | (in & gPassed); });
  vf_inv_f("what is passed and within the cutoff is inserted", [=](long k, float v) -> bool { return !gPassed | !em | gDone | (tot > v); });
  vf_inv_f("the cutoff leaves room above the best alternative", [=](long k, float v) -> bool { return v >= lo; });
  vf_cover("pre");
  Vector<float> *fr = vf_array<Vector<float> >(1);
  float r = d->ProcessEmitting(*fr);
  vf_inv_clear();
  vf_assert(gCleared && d->toks_.size() == 0, "the index and the new tokens start empty");
  if (n == 0) vf_assert(r == INFINITY, "failure without tokens");
  else {
    vf_assert(gCut, "pruned by the cutoff");
    if (!std::isfinite(wc)) vf_assert(r == INFINITY, "failure without a finite token");
    else {
      vf_cover("decoded");
      vf_assert(!(in & em & (tot <= r)) | gDone, "every alternative within the cutoff is inserted");
      vf_assert(r >= lo, "the cutoff is at least the beam above the best alternative");
      vf_assert(!(in & em & (tot <= lo)) | gDone, "so every alternative within the beam is inserted");
      vf_assert(gFreed == 1 && d->prev_toks_.size() == 0, "each old token is released once");
    }
  }
}
// ---- insertion: the index of the states (C01), the pool of the tokens (C02) and the pool of the labels (C03) by contract
static St gKey; static int gFound, gPut, gPutN; static long gFresh, gGone; static int gNew, gDel;
extern "C" int SC_find(void *h, St s, int def) { vf_assert(h == &gD->state_idx_ && s == gKey && def == -1, "look for the state"); return gFound; }
extern "C" void SC_put(void *h, St s, int v) { vf_assert(h == &gD->state_idx_ && s == gKey && gFound == -1, "a new state"); gPut = v; ++gPutN; }
extern "C" Tok *SC_talloc(void *p, St *s, float *c, OL **o) {
  vf_assert(p == &gD->toks_pool_ && gNew == 0, "one token is made"); ++gNew;
  Tok *t = gTok + gFresh; t->state_ = *s; t->cost_ = *c; t->olabel_ = *o; return t;
}
extern "C" void SC_tfree(void *p, Tok *t) { vf_assert(p == &gD->toks_pool_, "the pool of the tokens"); vf_assert(gDel == 0, "released once"); ++gDel; gGone = t - gTok; }
static long gPrev, gNext, gOlFresh; static int gLabel, gOlNew, gSet; static bool gHasNext;
extern "C" OL *SC_oalloc(void *p, OL **prev, int *label) {
  vf_assert(p == &gD->olabels_pool_ && gOlNew == 0 && *label == gLabel && *prev == (gPrev < 0 ? nullptr : gOl + gPrev), "one node: this label behind these labels");
  ++gOlNew; return gOl + gOlFresh;
}
extern "C" OL *SC_onext(OL *o, int label) { vf_assert(gPrev >= 0 && o == gOl + gPrev && label == gLabel, "the node for the label"); return gHasNext ? gOl + gNext : nullptr; }
extern "C" void SC_oset(OL *o, int label, OL *n) { vf_assert(gPrev >= 0 && o == gOl + gPrev && label == gLabel && n == gOl + gOlFresh && gOlNew == 1 && !gHasNext, "a new node is linked"); ++gSet; }
extern "C" void H_insert() {
  gD = vf_array<Decoder>(1); Decoder *d = gD; gNS = 2000000000;
  long n = vf_any<int>(); vf_assume((n >= 0) & (n < 2000000000)); tokens(n); vf_set_vector(d->toks_, gP, n); Tok **P = gP, *T = gTok;
  gKey = St(vf_any<int>(), vf_any<int>()); St key = gKey; gFound = vf_any<int>(); vf_assume((-1 <= gFound) & (gFound < n)); long idx = gFound;
  // the index agrees with the tokens
  if (idx >= 0) vf_assume((T[idx].state_.hclg_state_ == key.hclg_state_) & (T[idx].state_.lm_state_ == key.lm_state_));
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return (i == idx) | (T[i].state_.hclg_state_ != key.hclg_state_) | (T[i].state_.lm_state_ != key.lm_state_); }));
  gFresh = n; gPutN = gNew = gDel = gOlNew = gSet = 0; gGone = -1;
  gPrev = vf_any<int>(); gNext = vf_any<int>(); gOlFresh = vf_any<int>(); gLabel = vf_any<int>(); gHasNext = vf_any<bool>();
  vf_assume((-1 <= gPrev) & (gPrev < gNOl) & (0 <= gNext) & (gNext < gNOl) & (0 <= gOlFresh) & (gOlFresh < gNOl) & (gLabel >= 0));
  long j = vf_any<int>(); vf_assume((0 <= j) & ((j < n) | ((n == 0) & (j == 0)))); Tok *pj = P[j]; float cj = T[j].cost_; int hj = T[j].state_.hclg_state_, lj = T[j].state_.lm_state_;
  float old = idx >= 0 ? T[idx].cost_ : 0, cost = vf_any<float>(); bool better = idx < 0 || cost < old;
  vf_cover("pre");
  bool r = d->InsertTok(key, gLabel, gPrev < 0 ? nullptr : gOl + gPrev, cost);
  OL *want = gLabel == 0 ? (gPrev < 0 ? nullptr : gOl + gPrev) : gPrev >= 0 && gHasNext ? gOl + gNext : gOl + gOlFresh;
  vf_assert(gOlNew == (gLabel != 0 && !(gPrev >= 0 && gHasNext)), "a label node is made only when there is none");
  vf_assert(gSet == (gOlNew == 1 && gPrev >= 0), "and linked to the node before");
  long m = d->toks_.size(); Tok **R = d->toks_.data(), *X = gTok + gFresh;
  vf_assert(r == better, "inserted exactly when new or cheaper than the token held");
  vf_assert(m == n + (idx < 0), "one token for each state");
  vf_assert(gPutN == (idx < 0) && (gPutN == 0 || gPut == n), "the index gets the place of a new state");
  vf_assert(gDel == (idx >= 0 && better) && (gDel == 0 || gGone == idx), "exactly the token replaced is released");
  if (better) {
    vf_cover("inserted");
    vf_assert(R[idx < 0 ? n : idx] == X && gNew == 1, "the new token is held for the state");
    vf_assert(X->state_.hclg_state_ == key.hclg_state_ && X->state_.lm_state_ == key.lm_state_ && X->cost_ == cost && X->olabel_ == want, "with its state, cost and labels");
  } else vf_assert(gNew == 0 && R[idx] == T + idx, "the cheaper token stays");
  if (n > 0 && j != idx) vf_assert(R[j] == pj && T[j].cost_ == cj && T[j].state_.hclg_state_ == hj && T[j].state_.lm_state_ == lj, "the other tokens stay");
}
// ---- the cutoff
static float gLow; static bool gNth; static float gPick;
extern "C" void SC_nth(float *b, float *m, float *e) {
  long n = e - b, i = m - b; float lo = gLow;
  vf_assume(n >= 1);       // the sequence of samples is fixed: with more than 30000 tokens at least one is taken
  vf_assert(0 <= i && i < n, "a place inside the samples");
  bool all = vf_forall(0, n, [=](long k) -> bool { return b[k] >= lo; });
  vf_havoc_array_(b);
  vf_assume(!all | vf_forall(0, n, [=](long k) -> bool { return b[k] >= lo; }));      // (samples are rearranged)
  gNth = true; gPick = *m;
}
extern "C" void H_cutoff() {
  gD = vf_array<Decoder>(1); Decoder *d = gD; gNS = 2000000000; gCur = -1;
  long n = vf_any<int>(); vf_assume((n > 0) & (n < 2000000000)); tokens(n); vf_set_vector(d->prev_toks_, gP, n); Tok *T = gTok;
  long m = vf_any<int>(); vf_assume(m >= 0); float *C = vf_array<float>(m); vf_touch_(C, 'f'); vf_set_vector(d->costs_, C, m);
  long b = vf_any<int>(); vf_assume((0 <= b) & (b < n)); float lo = gLow = T[b].cost_;
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return (T[i].cost_ >= lo) & (T[i].cost_ < INFINITY); }));
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return std::isfinite(T[i].cost_); }));
  float beam = vf_any<float>(); vf_assume(beam > 0); d->beam_ = beam; gNth = false;
  vf_inv_f("the least cost so far", [=](long k, float v) -> bool { return (v >= lo) & ((k <= b) | (v == lo)); });
  vf_inv_f("none before is less", [=](long k, float v) -> bool { return vf_forall(0, k, [=](long i) -> bool { return T[i].cost_ >= v; }); });
  vf_inv("samples are costs", [=](long k) -> bool { float *c = d->costs_.data(); long s = d->costs_.size(); return (s <= k) & (s <= vf_count(c)) & vf_forall(0, s, [=](long i) -> bool { return c[i] >= lo; }); });
  Tok **bp = vf_array<Tok *>(1); *bp = T;
  vf_inv_f("the best token", [=](long k, float v) -> bool { return (*bp - T >= 0) & (*bp - T < n) & ((v == INFINITY) | ((*bp)->cost_ == v)); });
  vf_cover("pre");
  float ab = 0; Tok *&best = *bp;
  double r = d->GetCutoff(&ab, &best);
  vf_inv_clear();
  vf_assert(best->cost_ == lo, "the token with the least cost");
  vf_assert(r >= lo && r <= lo + beam, "the cutoff is between the least cost and the beam above it");
  if (n <= 30000) vf_assert(r == lo + beam && ab == beam, "within the size of the beam only the beam prunes");
  else {
    vf_cover("large");
    if (!gNth || gPick >= lo + beam) vf_assert(r == lo + beam && ab == beam, "a guess above the beam is not used");
    else vf_assert(r == gPick && ab == gPick - lo + 0.5f, "the guess for the size of the beam");
  }
  vf_assert(ab > 0, "a positive beam for the next frame");
}

// ---- the non-emitting pass: the states still to visit are a multiset; one state S, one of its arcs to T and their tokens are followed
static St gS, gT, gX, gIns; static bool gHasS, gHasT, gFol, gBackOk, gInsOk, gVis; static float gCostS, gCostT, gTot; static double gCut2; static long gQ, gQS; static int gIdx;
static bool is(St a, St b) { return (a.hclg_state_ == b.hclg_state_) & (a.lm_state_ == b.lm_state_); }
static bool relaxed() { return !gHasS | (gCostS + gTot > gCut2) | (gHasT & (gCostT <= gCostS + gTot)); }
extern "C" Tok **SC_deref2(Tok ***it) { gIns = gTok[*it - gP].state_; gInsOk = true; return *it; }
extern "C" void SC_push(void *q, const St *s) {
  vf_assert(gInsOk && is(*s, gIns), "a state whose token is new or improved is visited"); gInsOk = gBackOk = false;
  ++gQ; gQS += is(*s, gS);
}
extern "C" bool SC_qempty(void *q) { return gQ == 0; }
extern "C" unsigned long SC_qsize(void *q) { return gQ; }
extern "C" St *SC_back(void *q) {
  vf_assert(gQ > 0, "the last of a nonempty queue"); vf_assert(!gInsOk, "no improved state is forgotten");
  if (!gBackOk) {
    gX = St(vf_any<int>(), vf_any<int>()); vf_assume((gX.hclg_state_ >= 0) & (gX.hclg_state_ < gNS) & (gX.lm_state_ >= 0));
    bool x = is(gX, gS); vf_assume((x & (gQS > 0)) | (!x & (gQ > gQS))); vf_assume(!is(gX, gS) | gHasS); vf_assume(!is(gX, gT) | gHasT);      // (a state is put there with its token)
    gBackOk = true;
  }
  return &gX;
}
extern "C" void SC_pop(void *q) { vf_assert(gBackOk && gQ > 0, "the state looked at is removed"); --gQ; gQS -= is(gX, gS); gBackOk = false; gVis = true; gIdx = -1; }
extern "C" int SC_find2(void *h, St s, int def) {
  vf_assert(h == &gD->state_idx_ && gVis && is(s, gX) && def == -1, "the token of the state at hand"); gIdx = vf_any<int>(); vf_assume(gIdx >= 0); return gIdx;
}
// gTok holds every token there ever is; the one at hand is any with the state at hand and, when it is S or T, their cost
extern "C" Tok **SC_at2(std::vector<Tok *> *v, unsigned long i) {
  vf_assert(v == &gD->toks_ && (long)i == gIdx && gIdx >= 0, "the place found"); gMain = true;
  long p = vf_any<int>(); vf_assume((0 <= p) & (p < gN)); vf_assume(is(gTok[p].state_, gX)); float c = gTok[p].cost_;
  vf_assume(!is(gX, gS) | (c == gCostS)); vf_assume(!is(gX, gT) | (c == gCostT)); gCur = p;
  return gP + p;
}
extern "C" bool SC_insert_n(Decoder *d, St s, int label, OL *prev, float cost) {
  vf_assert(d == gD && gMain && gVis && !gInsOk, "a step from the token at hand"); vf_assert(gA[gArc].ilabel == 0, "only arcs that consume no frame"); vf_assert(cost <= gCut2, "within the cutoff");
  is_step(s, label, prev, cost, 0);
  bool toS = is(s, gS), toT = is(s, gT), bS = !gHasS | (cost < gCostS), bT = !gHasT | (cost < gCostT), o = vf_any<bool>();
  bool r = (toS & bS) | (toT & bT) | (!toS & !toT & o); float cS = gCostS, cT = gCostT; bool uS = toS & bS, uT = toT & bT;
  gHasS = gHasS | toS; gHasT = gHasT | toT; gCostS = uS ? cost : cS; gCostT = uT ? cost : cT;
  gIns = s; gInsOk = r; return r;
}
static void nonemit(bool lm) {
  gEm = false;
  Decoder *d = decoder(); vf_assume(gLmOn == lm); long n = vf_any<int>(), more = vf_any<int>(); vf_assume((n >= 0) & (more > n)); tokens(more); vf_set_vector(d->toks_, gP, n); Tok *T = gTok; Arc *A = gA;
  gS = St(vf_any<int>(), vf_any<int>()); vf_assume((gS.hclg_state_ >= 0) & (gS.hclg_state_ < gNS) & (gS.lm_state_ >= 0));
  gAi = vf_any<int>(); long a = gAi, ar = gBase[gS.hclg_state_] + a; vf_assume((a >= 0) & (a < gCnt[gS.hclg_state_])); vf_assume(A[ar].ilabel == 0);
  gT = St(A[ar].nextstate, gLmOn ? gLmN[lmkey(gS.lm_state_, A[ar].olabel)] : gS.lm_state_); vf_assume(!is(gS, gT));   // (an arc back to its own state improves nothing)
  gTot = A[ar].weight.Value() + (gLmOn ? gLmW[lmkey(gS.lm_state_, A[ar].olabel)] : 0);
  long iS = vf_any<int>(), iT = vf_any<int>(); vf_assume((0 <= iS) & (iS <= n) & (0 <= iT) & (iT <= n)); gHasS = iS < n; gHasT = iT < n; St S = gS, TT = gT;
  vf_assume(vf_forall(0, n, [=](long i) -> bool { return is(T[i].state_, S) == (i == iS); })); vf_assume(vf_forall(0, n, [=](long i) -> bool { return is(T[i].state_, TT) == (i == iT); }));
  gCostS = T[iS].cost_; gCostT = T[iT].cost_; gCut2 = vf_any<double>(); gBackOk = gInsOk = gVis = false; gQ = gQS = 0; gIdx = -1;
  vf_inv("the queue", [=](long k) -> bool { return (gQS >= 0) & (gQS <= gQ) & !gInsOk & !gBackOk; });
  vf_inv("so many queued", [=](long k) -> bool { return gQ == k; });
  vf_inv("the state is queued with its token", [=](long k) -> bool { return (k <= iS) | (gQS > 0) | !gHasS; });
  vf_inv("queued states have a token", [=](long k) -> bool { return (gQS == 0) | gHasS; });
  vf_inv("queued, or all done", [=](long k) -> bool { return (gQS > 0) | relaxed(); });
  vf_inv("queued, or done up to here", [=](long k) -> bool { return (gQS > 0) | relaxed() | (is(gX, gS) & (k <= a)); });
  vf_inv("at hand", [=](long k) -> bool { return gVis & (gIdx >= 0) & (!is(gX, gS) | gHasS) & (!is(gX, gT) | gHasT) & (gX.hclg_state_ >= 0) & (gX.hclg_state_ < gNS); });
  vf_cover("pre");
  d->ProcessNonemitting(gCut2);
  vf_inv_clear();
  vf_cover("finished");
  vf_assert(relaxed(), "every arc without input out of every token within the cutoff is followed: its target has a token at most as costly");
}
extern "C" void H_nonemit() { nonemit(false); }
extern "C" void H_nonemit_lm() { nonemit(true); }

// ---- the result
struct SpecFst : fst::Fst<Arc> {
  int Start() const override;
  fst::TropicalWeight Final(int s) const override;
  size_t NumArcs(int) const override { return 0; }
  size_t NumInputEpsilons(int) const override { return 0; }
  size_t NumOutputEpsilons(int) const override { return 0; }
  uint64 Properties(uint64, bool) const override { return 0; }
  const std::string &Type() const override;
  fst::Fst<Arc> *Copy(bool) const override { return nullptr; }
  const fst::SymbolTable *InputSymbols() const override { return nullptr; }
  const fst::SymbolTable *OutputSymbols() const override { return nullptr; }
  void InitStateIterator(fst::StateIteratorData<Arc> *) const override {}
  void InitArcIterator(int, fst::ArcIteratorData<Arc> *) const override {}
};
extern void *gSfVt[] asm("_ZTV7SpecFst");
const std::string &SpecFst::Type() const { static std::string *s; return *s; }
static float *gFinal, *gLmFin; static int gStart, gLmStart;
int SpecFst::Start() const { vf_assert((void *)this == gFst, "of the decoding graph"); return gStart; }
fst::TropicalWeight SpecFst::Final(int s) const { vf_assert((void *)this == gFst && 0 <= s && s < gNS, "a state of the graph"); return fst::TropicalWeight(gFinal[s]); }
extern "C" float SC_lmfinal(CachedFst *f, int s) { vf_assert(f == gD->delta_lm_fst_.get() && s >= 0, "a state of the language model"); return gLmFin[s]; }
extern "C" int SC_lmstart(CachedFst *f) { vf_assert(f == gD->delta_lm_fst_.get(), "of the language model"); return gLmStart; }
static Decoder *decoder2() {
  Decoder *d = decoder(); SpecFst *f = vf_array<SpecFst>(1); *(void ***)f = gSfVt + 2; gFst = f; *(void **)&d->fst_ = f; gEm = false;
  gFinal = vf_array<float>(gNS); gLmFin = vf_array<float>(2147483648L); vf_touch_(gFinal, 'f'); vf_touch_(gLmFin, 'f');
  return d;
}
static double result_cost(long i, bool end, bool lm) { double c = gTok[i].cost_; if (end) c += gFinal[gTok[i].state_.hclg_state_]; if (end && lm) c += gLmFin[gTok[i].state_.lm_state_]; return c; }
static void best(bool end, bool lm) {
  Decoder *d = decoder2(); vf_assume(gLmOn == lm); long n = vf_any<int>(); vf_assume((n >= 0) & (n < 2000000000)); tokens(n); vf_set_vector(d->toks_, gP, n); d->is_end_of_stream_ = end;
  vf_touch_(&gOl->olabel_, 'i'); vf_ptrfield_(&gOl->previous_, gOl);
  bool some = vf_any<bool>(); long b = vf_any<int>(); vf_assume((0 <= b) & ((b < n) | ((n == 0) & (b == 0) & !some)));
  Tok *T = gTok; double low = n == 0 ? 0 : result_cost(b, end, lm);
  if (some) { vf_assume(low < INFINITY); vf_assume(vf_forall(0, n, [=](long i) -> bool { return (i == b) | (result_cost(i, end, lm) > low); })); }     // (of equally cheap ones, any may be given)
  else vf_assume(vf_forall(0, n, [=](long i) -> bool { return result_cost(i, end, lm) >= INFINITY; }));
  // the labels of the best token, newest first: nodes c[0..len)
  long len = vf_any<int>(); vf_assume((len >= 0) & (len < 100000)); long cn = vf_any<int>(); vf_assume(cn == 100001); long *c = vf_array<long>(cn); vf_touch_(c, 'l'); OL *O = gOl; long no = gNOl;
  vf_assume(vf_forall(0, len, [=](long k) -> bool { return (c[k] >= 0) & (c[k] < no); }));
  if (n > 0) { if (len == 0) vf_assume(T[b].olabel_ == nullptr); else vf_assume(T[b].olabel_ == O + c[0]); }
  vf_assume(vf_forall(0, len - 1, [=](long k) -> bool { return O[c[k]].previous_ == O + c[k + 1]; }));
  if (len > 0) vf_assume(O[c[len - 1]].previous_ == nullptr);
  vf_inv_f("the least cost so far", [=](long k, float v) -> bool { return !some | ((k <= b) & (v > low)) | ((k > b) & (v == low)); });
  vf_inv_i("the token with the least cost so far", [=](long k, int i) -> bool { return (i >= -1) & (i < n) & (!some | (k <= b) | (i == b)); });
  vf_inv_i("none", [=](long k, int i) -> bool { return some | (i == -1); });
  vf_inv_f("infinite", [=](long k, float v) -> bool { return some | (v == INFINITY); });
  vf_inv_p("the node at hand", [=](long k, void *o) -> bool { return (k <= len) & ((k < len) | (o == nullptr)) & ((k >= len) | ((OL *)o == O + c[k])); });
  long j = vf_any<int>(); vf_assume((j >= 0) & (j < 100000));
  vf_inv("words so far", [=](long k) -> bool { int *w = vf_newest<int>(); return (k <= j) | (w[j] == O[c[j]].olabel_); });
  vf_cover("pre");
  Decoder::Hypothesis h = d->BestPath();
  vf_inv_clear();
  if (!some) { vf_assert(h.words_.size() == 0 && h.weight_ == 0, "no complete path: an empty result"); return; }
  vf_cover("a path");
  vf_assert(h.weight_ == low, "the cost of the best token with its final costs");
  vf_assert((long)h.words_.size() == len, "a word for each label of the best token");
  const int *w = h.words_.data();
  if (j < len) vf_assert(w[j] == O[c[j]].olabel_, "word j is label j");
}
extern "C" void H_best_mid() { best(false, vf_any<bool>()); }
extern "C" void H_best_end() { best(true, false); }
extern "C" void H_best_end_lm() { best(true, true); }

// ---- the beginning of an utterance, and a frame: the passes by contract
static long gRel, gRelP, gPh; static int gIns0, gNon; static bool gClr; static double gCo;
extern "C" void SC_release2(void *p, Tok *t) {
  vf_assert(p == &gD->toks_pool_ && gIns0 == 0, "the pool of the tokens, before the first token"); long i = t - gTok; vf_assert(0 <= i && i < gN, "an old token");
  if (i == gF) ++gRel;
}
extern "C" void SC_clear2(void *h) { vf_assert(h == &gD->state_idx_ && gIns0 == 0, "the index of the states, before the first token"); gClr = true; }
extern "C" bool SC_insert_i(Decoder *d, St s, int label, OL *prev, float cost) {
  vf_assert(d == gD && gIns0 == 0 && gClr && d->toks_.size() == 0 && d->prev_toks_.size() == 0, "into an empty decoder"); ++gIns0;
  vf_assert(s.hclg_state_ == gStart && s.lm_state_ == (gLmOn ? gLmStart : 0) && label == 0 && prev == nullptr && cost == 0, "the start states, no word, no cost");
  return true;
}
extern "C" void SC_non(Decoder *d, double c) { vf_assert(d == gD && gNon == 0, "one non-emitting pass"); ++gNon; gCo = c; }
extern "C" void H_init() {
  Decoder *d = decoder2(); long n = vf_any<int>(), m = vf_any<int>(), all = vf_any<int>(); vf_assume((n >= 0) & (m >= 0) & (n + m == all) & (all < 2000000000)); tokens(all);
  vf_set_vector(d->toks_, gP, n); vf_set_vector(d->prev_toks_, gP + n, m);
  gF = vf_any<int>(); vf_assume((gF >= 0) & (gF < all)); long f = gF; gRel = gIns0 = gNon = 0; gClr = false; gStart = vf_any<int>(); gLmStart = vf_any<int>(); vf_assume((gStart >= 0) & (gStart < gNS) & (gLmStart >= 0));
  vf_inv("released so far, of the tokens", [=](long k) -> bool { return gRel == ((f < n) & (k > f)); });
  vf_inv("released so far, of the old tokens", [=](long k) -> bool { return gRel == ((f < n) | (k > f - n)); });
  vf_cover("pre");
  d->Initialize();
  vf_inv_clear();
  vf_cover("ready");
  vf_assert(gRel == 1, "every token of the last utterance is released once");
  vf_assert(gIns0 == 1 && gNon == 1 && gCo == INFINITY, "the start token and everything reached from it without input");
  vf_assert(d->num_frames_decoded_ == 0 && !d->is_end_of_stream_, "no frame so far");
}
// a frame
static float gEc; static int gEmit, gGc; static bool gRoot; static long gAfter;
extern "C" float SC_emit(Decoder *d, void *f) { vf_assert(d == gD && gEmit == 0 && gNon == 0, "first the emitting pass"); ++gEmit; return gEc; }
extern "C" void SC_non2(Decoder *d, double c) { vf_assert(d == gD && gEmit == 1 && gNon == 0 && c == gEc, "then the non-emitting pass with the cutoff of the emitting one"); ++gNon; vf_set_vector(d->toks_, gP, gAfter); }
extern "C" void SC_root(void *v, OL *const *o) { vf_assert(gMain && gCur >= 0 && gCur < gN && *o == gTok[gCur].olabel_ && *o != nullptr, "the labels of a token"); gRoot = gRoot | (gCur == gF); }
extern "C" void SC_gc(void *p, void *roots) { vf_assert(p == &gD->olabels_pool_ && gNon == 1 && gGc == 0, "after the passes"); vf_assert((gAfter == 0) | gRoot | (gTok[gF].olabel_ == nullptr), "every token's labels are roots"); ++gGc; }
extern "C" int SC_nodes(void *p) { return vf_any<int>(); }
extern "C" void H_process() {
  Decoder *d = decoder(); gEm = false; long n = vf_any<int>(), m = vf_any<int>(); vf_assume((n >= 0) & (m >= 0)); tokens(n); gAfter = n; vf_set_vector(d->toks_, gP, n); int nf = d->num_frames_decoded_; vf_assume((nf >= 0) & (nf < 2000000000));
  gEc = vf_any<float>(); gF = vf_any<int>(); vf_assume((gF >= 0) & ((gF < n) | ((n == 0) & (gF == 0)))); long f = gF; Tok *T = gTok; gEmit = gNon = gGc = 0; gRoot = false;
  vf_inv("roots so far", [=](long k) -> bool { return (k <= f) | gRoot | (T[f].olabel_ == nullptr); });
  vf_cover("pre");
  Vector<float> *fr = vf_array<Vector<float> >(1);
  bool r = d->Process(*fr);
  vf_inv_clear();
  vf_assert(gEmit == 1, "one emitting pass");
  if (!std::isfinite(gEc)) vf_assert(!r && gNon == 0 && d->num_frames_decoded_ == nf, "failure when no path continues");
  else {
    vf_assert(gNon == 1 && r == (n > 0), "success exactly when a token is left");
    vf_assert(d->num_frames_decoded_ == nf + r, "the frame is counted");
    if (r) { vf_cover("decoded"); if (nf % 20 == 0) vf_cover("collected"); }
  }
}
// ---- the step of the language model, the score of a frame
extern "C" void *SC_os(void *o) { return o; }       // (messages)
static bool gHasArc; static FstArc gLmArc; static int gLmS, gLmL;
extern "C" bool SC_getarc(CachedFst *f, int s, int l, FstArc *a) { vf_assert(f == gD->delta_lm_fst_.get() && s == gLmS && l == gLmL && l != 0, "the arc for the word"); if (gHasArc) *a = gLmArc; return gHasArc; }
extern "C" void H_lm() {
  Decoder *d = decoder(); vf_assume(gLmOn); gLmS = vf_any<int>(); gLmL = vf_any<int>(); gHasArc = vf_any<bool>(); gLmArc.next_state = vf_any<int>(); gLmArc.weight = vf_any<float>();
  float w = vf_any<float>();
  vf_cover("pre");
  int r = d->PropogateLm(gLmS, gLmL, &w);
  if (gLmL != 0 && gHasArc) { vf_cover("arc"); vf_assert(r == gLmArc.next_state && w == gLmArc.weight, "the step of the language model"); }
  else vf_assert(r == gLmS && w == 0, "no word, no step");
}
extern "C" void H_ll() {
  Decoder *d = vf_array<Decoder>(1); int n = vf_any<int>(), m = vf_any<int>(), t = vf_any<int>(); vf_assume((n > 0) & (m > 0) & (t >= 0) & (t < n));
  int *M = vf_array<int>(n); float *F = vf_array<float>(m); vf_touch_(M, 'i'); vf_touch_(F, 'f'); vf_assume((M[t] >= 0) & (M[t] < m));
  Vector<int> *mp = vf_array<Vector<int> >(1); mp->data_ = M; mp->dim_ = n; *(Vector<int> **)((char *)&d->beam_ - 8) = mp;   // (the reference next to it)
  Vector<float> *fr = vf_array<Vector<float> >(1); fr->data_ = F; fr->dim_ = m; float sc = vf_any<float>(); d->am_scale_ = sc;
  vf_cover("pre");
  float r = d->LogLikelihood(*fr, t);
  vf_assert(r == sc * F[M[t]], "the scaled score of the pdf of the transition");
}

// ---- nodes of labels: the map of their successors by contract
struct Node { Node *next; std::pair<const int, OL *> kv; };
static OL *gO; static Node *gNode; static int gClears, gErase, gErased, gPuts, gKeyL; static bool gHasE; static OL **gSlot;
extern "C" void SC_mclear(void *m) { vf_assert(m == &gO->nexts_, "its own successors"); ++gClears; }
extern "C" unsigned long SC_merase(void *m, const int *k) { vf_assert(m == &gO[1].nexts_, "the successors of the node before"); ++gErase; gErased = *k; return 1; }
extern "C" Node *SC_mfind(void *m, const int *k) { vf_assert(m == &gO->nexts_ && *k == gKeyL, "look for the label"); return gHasE ? gNode : nullptr; }
extern "C" Node *SC_mend(void *m) { vf_assert(m == &gO->nexts_, "its own successors"); return nullptr; }
extern "C" OL **SC_mat(void *m, const int *k) { vf_assert(m == &gO->nexts_ && *k == gKeyL && gPuts == 0, "the place of the label"); ++gPuts; return gSlot; }
static OL *node() { gO = vf_array<OL>(3); gNode = vf_array<Node>(1); gSlot = vf_array<OL *>(1); gClears = gErase = gPuts = 0; gKeyL = vf_any<int>(); gHasE = vf_any<bool>(); return gO; }
extern "C" void H_collect() {
  OL *o = node(); bool prev = vf_any<bool>(), freed = vf_any<bool>(); int l = vf_any<int>();
  o->olabel_ = l; if (prev) o->previous_ = o + 1; else o->previous_ = nullptr; if (freed) o[1].Free(); else o[1].Use();
  vf_cover("pre");
  o->OL::OnCollect();
  vf_assert(gClears == 1 && o->previous_ == nullptr && o->olabel_ == -1, "the node is emptied");
  vf_assert(gErase == (prev && !freed) && (gErase == 0 || gErased == l), "and removed from a node before that stays");
  if (gErase) vf_cover("removed");
}
extern "C" void H_next() {
  OL *o = node(); gNode->kv.second = o + 1; bool set = vf_any<bool>();
  if (set) { vf_cover("set"); o->set_next(gKeyL, o + 2); vf_assert(gPuts == 1 && *gSlot == o + 2, "the successor for the label is set"); }
  else { vf_cover("get"); OL *r = o->next(gKeyL); vf_assert(r == (gHasE ? o + 1 : nullptr), "the successor for the label, or none"); }
}
