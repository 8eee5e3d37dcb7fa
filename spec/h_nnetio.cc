// vf-link: vector.cc matrix.cc
#define IO_BLOCKS no_block
static bool no_block(void *ptr, int size, long p) { return false; }
#include "vfio.h"
#include "nnet.cc"
using namespace pocketkaldi;
// contracts of the section readers (proved in h_io.cc): a step of the reading that succeeds or not
static void *gWant[3]; static int gStep; static bool gOk[3];
static void step(Status *out, void *x, File *fd) {
  vf_assert(fd == gFd && gStep < 2 && x == gWant[gStep], "the sections of the layer, in order");
  vf_st(out, gOk[gStep] ? 0 : 2); ++gStep;
}
extern "C" void SC_mread(Status *out, Matrix<float> *m, File *fd) { step(out, m, fd); }
extern "C" void SC_vread(Status *out, Vector<float> *v, File *fd) { step(out, v, fd); }
#define TWO(T, A, B) \
  File *f = any_file(); gStep = 0; gOk[0] = vf_any<bool>(); gOk[1] = vf_any<bool>(); gWant[0] = A; gWant[1] = B; \
  vf_cover("pre"); \
  Status st = l->T::Read(f); \
  vf_assert((st.code_ == 0) == (gOk[0] & gOk[1]), "accepted exactly when both sections are well-formed"); \
  vf_assert(st.code_ != 0 || gStep == 2, "both are read");
extern "C" void H_linear() { LinearLayer *l = vf_array<LinearLayer>(1); TWO(LinearLayer, &l->W_, &l->b_) }
extern "C" void H_bn() { BatchNormLayer *l = vf_array<BatchNormLayer>(1); TWO(BatchNormLayer, &l->scale_, &l->offset_) }
extern "C" void H_narrow() {
  NarrowLayer *l = vf_array<NarrowLayer>(1); File *f = any_file(); long p = gPos;
  vf_cover("pre");
  Status st = l->NarrowLayer::Read(f);
  vf_assert((st.code_ == 0) == (p + 8 <= gLen), "accepted exactly when complete");
  if (st.code_ == 0) vf_assert(l->narrow_left_ == gI32[p] && l->narrow_right_ == gI32[p + 4] && gPos == p + 8, "left, then right; position behind them");
}
extern "C" void H_splice() {
  SpliceLayer *l = new SpliceLayer(); File *f = any_file(); long p = gPos;
  long n = gI32[p]; vf_assume(n < 1000000000);
  std::vector<int> *X = &l->indices_;
  vf_inv("indices read", [=](long k) -> bool { return ((long)X->size() == k) & (gPos == p + 4 + 4 * k); });
  long i = vf_any<int>(); vf_assume((0 <= i) & (i < n));
  int want = gI32[p + 4 + 4 * i];
  vf_inv("index i", [=](long k) -> bool { return (k <= i) || ((i < (long)X->size()) && ((*X)[i] == want)); });
  vf_cover("pre");
  Status st = l->Read(f);
  vf_inv_clear();
  vf_assert((st.code_ == 0) == (p + 4 + 4 * n <= gLen), "accepted exactly when complete");
  if (st.code_ == 0) { vf_cover("accepted"); vf_assert((long)X->size() == n && (*X)[i] == want && gPos == p + 4 + 4 * n, "the indices of the section in order; position behind them"); }
}
extern "C" void H_splice0() {
  SpliceLayer *l = new SpliceLayer(); File *f = any_file(); long p = gPos;
  int n = gI32[p]; vf_assume(n <= 0);
  std::vector<int> *X = &l->indices_;
  vf_inv("none read", [=](long k) -> bool { return ((long)X->size() == k) & (k == 0) & (gPos == p + 4); });
  vf_cover("pre");
  Status st = l->Read(f);
  vf_inv_clear();
  vf_assert((st.code_ == 0) == ((p + 4 <= gLen) & (n == 0)), "accepted exactly for a count that is not negative");
  if (st.code_ == 0) vf_assert(l->indices_.size() == 0 && gPos == p + 4, "none");
}
// ---- Nnet::ReadLayer
static void *gGot; static bool gContent; static int gReads, gAdds; static Layer *gLayer; static std::vector<std::unique_ptr<Layer> > *gLayers;
extern "C" void SC_lread(Status *out, Layer *l, File *fd) { vf_assert(fd == gFd && gReads == 0, "the content of the layer, once"); gLayer = l; ++gReads; vf_st(out, gContent ? 0 : 2); }
extern "C" void SC_addlayer(void *v, Layer **u) { vf_assert(v == gLayers && gAdds == 0, "added once"); ++gAdds; gGot = *(void **)*u; *u = nullptr; }
extern "C" void SC_ldel(void *u) {}
#define VT(x, s) extern void *x[] asm(s);
VT(vLinear, "_ZTVN11pocketkaldi11LinearLayerE") VT(vReLU, "_ZTVN11pocketkaldi9ReLULayerE") VT(vNorm, "_ZTVN11pocketkaldi14NormalizeLayerE") VT(vSoft, "_ZTVN11pocketkaldi12SoftmaxLayerE")
VT(vSplice, "_ZTVN11pocketkaldi11SpliceLayerE") VT(vBN, "_ZTVN11pocketkaldi14BatchNormLayerE") VT(vLog, "_ZTVN11pocketkaldi15LogSoftmaxLayerE") VT(vNarrow, "_ZTVN11pocketkaldi11NarrowLayerE")
extern "C" void H_readlayer() {
  Nnet *n = vf_array<Nnet>(1); File *f = any_file(); long p = gPos; gLayers = &n->layers_;
  gReads = gAdds = 0; gContent = vf_any<bool>(); gGot = nullptr;
  int ty = gI32[p + 4];
  bool known = (ty == 0) | (ty == 1) | (ty == 2) | (ty == 3) | ((ty >= 6) & (ty <= 9));
  bool head = (p + 8 <= gLen) & text_at(p, "LAY0") & known;
  vf_cover("pre");
  Status st = n->ReadLayer(f);
  bool content = gReads == 0 || gContent;
  vf_assert((st.code_ == 0) == (head & content), "accepted exactly when the name, the type and the content are good");
  vf_assert(gAdds == (st.code_ == 0), "a layer is added exactly on success");
  if (st.code_ == 0) {
    void **v = (void **)gGot;
    vf_assert(ty == 0 ? v == vLinear + 2 : ty == 1 ? v == vReLU + 2 : ty == 2 ? v == vNorm + 2 : ty == 3 ? v == vSoft + 2 : ty == 6 ? v == vSplice + 2 : ty == 7 ? v == vBN + 2 : ty == 8 ? v == vLog + 2 : v == vNarrow + 2, "a layer of the type in the file");
    vf_assert(gReads == 1 || ty == 1 || ty == 2 || ty == 3 || ty == 8, "a layer with content has it read");
  }
}
// ---- Nnet::Read
static long *gBase; static bool *gGood; static long gRow; static Nnet *gNet;
extern "C" void SC_readlayer(Status *out, Nnet *n, File *fd) {
  vf_assert(n == gNet && fd == gFd && gPos == gBase[gRow], "layer k is read at its place");
  if (!gGood[gRow]) { vf_st(out, 2); ++gRow; return; }
  ++gRow; gPos = gBase[gRow]; vf_st(out, 0);
}
extern "C" void H_nnetread() {
  Nnet *n = gNet = vf_array<Nnet>(1); File *f = any_file(); long p = gPos, len = gLen;
  int left = gI32[p + 4], right = gI32[p + 8]; long nl = gI32[p + 12];
  bool head = (p + 16 <= gLen) & text_at(p, "NN02");
  gBase = vf_array<long>(4000000000L); gGood = vf_array<bool>(4000000000L); vf_touch_(gBase, 'l'); vf_touch_(gGood, 'b');
  long *B = gBase; bool *G = gGood; gRow = 0;
  vf_assume(B[0] == p + 16);
  long R = vf_any<int>(); vf_assume((0 <= R) & ((R < nl) | (R == 0)));
  bool goodR = G[R], all = vf_forall(0, nl, [=](long r) -> bool { return G[r]; });
  vf_inv("layers read", [=](long k) -> bool { return (gRow == k) & (gPos == B[k]); });
  vf_inv("layer R was good", [=](long k) -> bool { return (k <= R) | goodR; });
  vf_cover("pre");
  Status st = n->Read(f);
  vf_inv_clear();
  vf_assert(st.code_ == 0 || !(head & (nl >= 0) & all), "accepted when well-formed");
  vf_assert(st.code_ != 0 || (head & (nl >= 0) & (goodR | (nl <= R))), "accepted only when well-formed, whatever layer is looked at");
  if (st.code_ == 0) { vf_cover("accepted"); vf_assert(n->left_context_ == left && n->right_context_ == right && gPos == B[nl] && gRow == nl, "contexts, all layers, position behind the last one"); }
}
