// vf-link: vector.cc matrix.cc fst.cc
#include "fst.h"
struct ArcsView; static bool fst_block(void *ptr, int size, long p);
#define IO_BLOCKS fst_block
#include "vfio.h"
#include "vector.h"
#include "matrix.h"
using namespace pocketkaldi;
static Fst *gFst;
static bool fst_block(void *ptr, int size, long p) {
  if (!gFst) return false;
  if (ptr == (void *)gFst->final_.data()) { vf_assert((long)size == 4 * (long)gFst->final_.size(), "a block read fills its destination"); fill(ptr, 0, p, size / 4); return true; }
  if (ptr == (void *)gFst->state_idx_.data()) { vf_assert((long)size == 4 * (long)gFst->state_idx_.size(), "a block read fills its destination"); fill(ptr, 1, p, size / 4); return true; }
  if (ptr == (void *)gFst->arcs_.data()) {
    long n = gFst->arcs_.size(); vf_assert((long)size == 16 * n, "a block read fills its destination");
    FstArc *A = (FstArc *)ptr; int *I = gI32; float *F = gF32;
    vf_havoc_array_(A);
    vf_assume(vf_forall(0, n, [=](long i) -> bool { return (A[i].next_state == I[p + 16 * i]) & (A[i].input_label == I[p + 16 * i + 4]) & (A[i].output_label == I[p + 16 * i + 8]) & (A[i].weight == F[p + 16 * i + 12]); }));
    return true;
  }
  if (size == 32) { char *d = (char *)ptr; for (int i = 0; i < 32; ++i) d[i] = gByte[p + i]; return true; }
  return false;
}
static void *gV;
extern "C" void SC_vresize(Vector<float> *v, int d, int type) {
  vf_assert(v == gV && d >= 0, "the vector");
  v->data_ = nullptr; v->dim_ = d; gBulk = nullptr; gBulkN = d; gBulkSize = 4; gBulkKind = 0;
  if (d > 0) { v->data_ = vf_array<float>(d); vf_touch_(v->data_, 'f'); gBulk = v->data_; }
}
extern "C" void SC_viresize(Vector<int> *v, int d, int type) {
  vf_assert(v == gV && d >= 0, "the vector");
  v->data_ = nullptr; v->dim_ = d; gBulk = nullptr; gBulkN = d; gBulkSize = 4; gBulkKind = 1;
  if (d > 0) { v->data_ = vf_array<int>(d); vf_touch_(v->data_, 'i'); gBulk = v->data_; }
}
#define VREAD(T, VIEW) \
  File *f = any_file(); long p = gPos; \
  Vector<T> *v = vf_array<Vector<T> >(1); v->data_ = nullptr; v->dim_ = vf_any<int>(); gV = v; \
  int size = gI32[p + 4], dim = gI32[p + 8]; \
  bool good = (p + 12 <= gLen) & text_at(p, "VEC0") & (dim >= 0) & ((long)size == 4L * dim + 4) & (p + 12 + 4L * dim <= gLen); \
  vf_cover("pre"); \
  Status st = v->Read(f); \
  vf_assert((st.code_ == 0) == good, "accepted exactly when well-formed and complete"); \
  if (st.code_ == 0) { \
    vf_cover("accepted"); \
    vf_assert(gPos == p + 12 + 4L * dim, "the position is directly behind the section"); \
    vf_assert(v->dim_ == dim, "the dimension of the section"); \
    long i = vf_any<int>(); vf_assume(0 <= i && i < dim); \
    vf_assert(v->data_[i] == VIEW[p + 12 + 4 * i], "element i of the section"); \
  }
extern "C" void H_vread() { VREAD(float, gF32) }
extern "C" void H_viread() { VREAD(int, gI32) }
// ---- Matrix::Read, with Vector::Read by the contract just proved
static long *gBase; static bool *gGood; static int *gDim; static long gRow; static float *gRowData;
extern "C" void SC_vctor(Vector<float> *v) { v->data_ = gRowData; v->dim_ = 0; }
extern "C" void SC_vread(Status *out, Vector<float> *v, File *fd) {
  vf_assert(fd == gFd, "a read of the file");
  long r = gRow++;
  vf_assert(gPos == gBase[r], "row r is read at its place");
  if (!gGood[r]) { v->dim_ = vf_any<int>(); vf_st(out, 2); gPos = gLen; return; }
  int d = gDim[r]; long p = gPos;
  v->dim_ = d; v->data_ = gRowData;
  float *D = gRowData, *F = gF32; vf_havoc_array_(D);
  vf_assume(vf_forall(0, d, [=](long i) -> bool { return D[i] == F[p + 12 + 4 * i]; }));
  gPos = p + 12 + 4L * d;
  vf_st(out, 0);
}
extern "C" void SC_vdtor(void *v) {}
static Matrix<float> *gM;
extern "C" void SC_mresize(Matrix<float> *m, int r, int c, int type, int stride) {
  vf_assert(m == gM && r >= 0 && c >= 0 && (r == 0) == (c == 0), "a shape");
  if (r == 0) { m->data_ = nullptr; m->num_rows_ = m->num_cols_ = m->stride_ = 0; return; }
  int S = vf_any<int>(); vf_assume(S >= c && r * S < 1000000000);
  m->data_ = vf_array<float>(r * S); vf_touch_(m->data_, 'f');
  m->num_rows_ = r; m->num_cols_ = c; m->stride_ = S;
}
extern "C" void H_mread() {
  File *f = any_file(); long p = gPos;
  Matrix<float> *m = gM = vf_array<Matrix<float> >(1); m->data_ = nullptr; m->num_rows_ = m->num_cols_ = m->stride_ = 0;
  int rows = gI32[p + 8], cols = gI32[p + 12];
  bool head = (p + 16 <= gLen) & text_at(p, "MAT0") & (rows >= 0) & (cols >= 0) & ((rows == 0) == (cols == 0)) & ((long)rows * cols <= 2147483647L);
  gBase = vf_array<long>(4000000000L); gGood = vf_array<bool>(4000000000L); gDim = vf_array<int>(4000000000L); vf_touch_(gBase, 'l'); vf_touch_(gGood, 'b'); vf_touch_(gDim, 'i');
  long *B = gBase, len = gLen; bool *G = gGood; int *D = gDim;
  // row r, if all rows before it are well-formed and have the right dimension, begins at B[r]; G[r]: a complete well-formed vector of dimension D[r] is there
  vf_assume(B[0] == p + 16);
  vf_assume(vf_forall(0, rows, [=](long r) -> bool { return !(G[r] & (D[r] == cols)) | (B[r + 1] == B[r] + 12 + 4L * cols); }));
  vf_assume(vf_forall(0, rows, [=](long r) -> bool { return !G[r] | ((D[r] >= 0) & (B[r] + 12 + 4L * D[r] <= len) & (0 <= B[r])); }));
  gRow = 0; gRowData = vf_array<float>(3000000000L); vf_touch_(gRowData, 'f');
  long R = vf_any<int>(), C = vf_any<int>(); vf_assume((0 <= R) & (R < rows) & (0 <= C) & (C < cols));
  bool goodR = G[R] & (D[R] == cols); long at = B[R] + 12 + 4 * C; float *F = gF32;
  bool all = vf_forall(0, rows, [=](long r) -> bool { return G[r] & (D[r] == cols); });
  vf_inv("rows read", [=](long k) -> bool { return (gRow == k) & (gPos == B[k]); });
  vf_inv("row R was good", [=](long k) -> bool { return (k <= R) | goodR; });
  vf_inv("its element", [=](long k) -> bool { return (k <= R) || m->data_[R * m->stride_ + C] == F[at]; });
  vf_cover("pre");
  Status st = m->Read(f);
  vf_inv_clear();
  vf_assert(st.code_ == 0 || !(head & all), "accepted when well-formed");
  vf_assert(st.code_ != 0 || (head & goodR), "accepted only when well-formed, whatever row is looked at");
  if (st.code_ == 0) {
    vf_cover("accepted");
    vf_assert(m->num_rows_ == rows && m->num_cols_ == cols, "the shape of the section");
    vf_assert(gPos == B[rows], "the position is directly behind the last row");
    vf_assert(m->data_[R * m->stride_ + C] == F[at], "element (R, C) of the section");
  }
}
// an empty matrix
extern "C" void H_mread0() {
  File *f = any_file(); long p = gPos;
  Matrix<float> *m = gM = vf_array<Matrix<float> >(1); m->data_ = nullptr; m->num_rows_ = m->num_cols_ = m->stride_ = 0;
  int rows = gI32[p + 8], cols = gI32[p + 12]; vf_assume((rows <= 0) | (cols <= 0));
  bool head = (p + 16 <= gLen) & text_at(p, "MAT0") & (rows == 0) & (cols == 0);
  gBase = vf_array<long>(1); gGood = vf_array<bool>(1); gRow = 0; gDim = nullptr;
  vf_cover("pre");
  Status st = m->Read(f);
  vf_assert((st.code_ == 0) == head, "no rows are accepted exactly when there are no columns either");
  if (st.code_ == 0) { vf_cover("accepted"); vf_assert(m->num_rows_ == 0 && m->num_cols_ == 0 && gPos == p + 16, "empty, position behind the header"); }
}
// ---- Fst::Read
extern "C" bool SC_strne(const char **s, const char *t) {
  const char *x = *s; bool eq = true; long i = 0;
  for (; t[i] != 0; ++i) eq = eq & (x[i] == t[i]);
  return !(eq & (x[i] == 0));
}
extern "C" void H_fstread() {
  File *f = any_file(); long p = gPos;
  Fst *t = gFst = new Fst();
  int size = gI32[p + 32]; long ns = gI32[p + 36], na = gI32[p + 40]; int start = gI32[p + 44];
  bool good = (p + 48 <= gLen) & text_at(p, "pk::fst_0") & (gByte[p + 9] == 0) & (ns >= 0) & (na >= 0) & (12 + 8 * ns + 16 * na == size) & (p + 48 + 8 * ns + 16 * na <= gLen);
  vf_cover("pre");
  Status st = t->Read(f);
  vf_assert((st.code_ == 0) == good, "accepted exactly when well-formed and complete");
  if (st.code_ == 0) {
    vf_cover("accepted");
    vf_assert(gPos == p + 48 + 8 * ns + 16 * na, "the position is directly behind the section");
    vf_assert(t->start_state_ == start && (long)t->final_.size() == ns && (long)t->state_idx_.size() == ns && (long)t->arcs_.size() == na, "start state and sizes");
    long s = vf_any<int>(), a = vf_any<int>();
    if ((0 <= s) & (s < ns)) vf_assert(t->final_[s] == gF32[p + 48 + 4 * s] && t->state_idx_[s] == gI32[p + 48 + 4 * ns + 4 * s], "final weight and first arc of state s");
    if ((0 <= a) & (a < na)) { long q = p + 48 + 8 * ns + 16 * a; FstArc x = t->arcs_[a]; vf_assert(x.next_state == gI32[q] && x.input_label == gI32[q + 4] && x.output_label == gI32[q + 8] && x.weight == gF32[q + 12], "arc a"); }
  }
}
