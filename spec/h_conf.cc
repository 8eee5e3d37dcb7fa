// vf-noinline: std::vector<std::(__cxx11::)?(basic_string<.*>|string)
// Configuration: Read and the look-up functions for every sequence of lines.
// A text is known by a number; trimming, lower-casing, splitting, lines and integers are functions of it (contracts proved in h_str.cc).
#include "vfstd.h"
#include "configuration.h"
#include "configuration.cc"
using namespace pocketkaldi;
struct S { void *p; long n; long r[2]; };                 // n: the text
enum { T_EMPTY = 0, T_EQ = 1, T_DEF = 2, T_DIR = 3, T_LINE = 100 };
static bool same(const char *a, const char *b) { for (int i = 0; ; ++i) { if (a[i] != b[i]) return false; if (a[i] == 0) return true; } }
extern "C" void vf_throw_(int kind);
extern "C" void SC_lit(S *s, const char *p) { s->n = same(p, "=") ? T_EQ : -1; }
extern "C" void SC_empty0(S *s) { s->n = T_EMPTY; }
extern "C" void SC_copy(S *d, S *s) { d->n = s->n; }
extern "C" S *SC_asg(S *d, S *s) { d->n = s->n; return d; }
extern "C" void SC_nop(void *) {}
extern "C" void SC_status(Status *s, int code, void *msg) { s->code_ = code; }
static void st_set(Status *s, int code) { s->code_ = code; }
// functions of texts
static long *gTrim, *gLow, *gF, *gA, *gB, *gCat, *gSlash; static char *gFront; static bool *gIsInt; static int *gInt;
extern "C" bool SC_isempty(S *s) { return s->n == T_EMPTY; }
extern "C" char *SC_front(S *s) { vf_assert(s->n > T_EMPTY, "the first character of a text that is not empty"); return &gFront[s->n]; }
extern "C" bool SC_eq(S *a, S *b) { return a->n == b->n; }
extern "C" bool SC_ne(S *a, S *b) { return a->n != b->n; }
extern "C" void SC_trim(S *out, S *s) { out->n = gTrim[s->n]; }
extern "C" void SC_lower(S *out, S *s) { out->n = gLow[s->n]; }
static void *gFields; static S gField[2]; static long gCount;
extern "C" void SC_split(void *out, S *s, S *d) { vf_assert(d->n == T_EQ, "split at ="); gFields = out; gField[0].n = gA[s->n]; gField[1].n = gB[s->n]; gCount = gF[s->n]; }
extern "C" void SC_vnew(void *v) {}
extern "C" void *SC_vasg(void *d, void *s) { vf_assert(s == gFields, "the fields"); gFields = d; return d; }
extern "C" unsigned long SC_vsize(void *v) { vf_assert(v == gFields, "the fields"); return gCount; }
extern "C" S *SC_vat(void *v, unsigned long i) { vf_assert(v == gFields && (long)i < gCount && i < 2, "inside the fields"); return &gField[i]; }
// the file
static bool gOpen, gNoEol; static long gL, gRead, gErrAt; static void *gFile;
extern "C" void SC_open(Status *out, void *fd, S *name) { gFile = fd; st_set(out, gOpen ? 0 : 1); }
extern "C" bool SC_eof(void *fd) { vf_assert(fd == gFile, "the file"); return (gRead >= gL) & gNoEol & (gL > 0); }
extern "C" bool SC_readline(void *fd, S *line, Status *st) {
  vf_assert(fd == gFile, "the file");
  if (gRead == gErrAt) { st_set(st, 1); return false; }
  if (gRead >= gL) return false;
  line->n = T_LINE + gRead; ++gRead; return true;
}
// the table
static Configuration *gC; static S *gVal; static bool *gHas;
extern "C" S *SC_mat(void *m, S *k) {
  vf_assert(m == (void *)&gC->table_ && k->n >= 0, "the table");
  long t = k->n; gVal[t].n = gHas[t] ? gVal[t].n : T_EMPTY; gHas[t] = true; return &gVal[t];
}
struct Pr { S first, second; }; static Pr gPair; static char gNode[2];
extern "C" void *SC_mfind(void *m, S *k) {
  vf_assert(m == (void *)&gC->table_ && k->n >= 0, "the table");
  gPair.second.n = gVal[k->n].n;
  return gNode + (gHas[k->n] ? 1 : 0);
}
extern "C" void *SC_mend(void *m) { return gNode; }
extern "C" Pr *SC_mpair(void **it) { vf_assert(*it == gNode + 1, "an entry"); return &gPair; }
static const long N = 8000000000L;
static void texts() {
  gTrim = vf_array<long>(N); gLow = vf_array<long>(N); gF = vf_array<long>(N); gA = vf_array<long>(N); gB = vf_array<long>(N); gCat = vf_array<long>(N); gSlash = vf_array<long>(N);
  gFront = vf_array<char>(N); gIsInt = vf_array<bool>(N); gInt = vf_array<int>(N); gVal = vf_array<S>(N); gHas = vf_array<bool>(N);
  vf_touch_(gTrim, 'l'); vf_touch_(gLow, 'l'); vf_touch_(gF, 'l'); vf_touch_(gA, 'l'); vf_touch_(gB, 'l'); vf_touch_(gCat, 'l'); vf_touch_(gSlash, 'l');
  vf_touch_(gFront, 'b'); vf_touch_(gIsInt, 'b'); vf_touch_(gInt, 'i'); vf_touch_(&gVal[0].n, 'l'); vf_touch_(gHas, 'b');
  long *Tr = gTrim, *Lo = gLow, *A = gA, *B = gB; const long M = 4000000000L;
  vf_assume(vf_forall(0, M, [=](long t) -> bool { return (Tr[t] >= 0) & (Tr[t] < M); }));
  vf_assume(vf_forall(0, M, [=](long t) -> bool { return (Lo[t] >= 0) & (Lo[t] < M); }));
  vf_assume(vf_forall(0, M, [=](long t) -> bool { return (A[t] >= 0) & (A[t] < M); }));
  vf_assume(vf_forall(0, M, [=](long t) -> bool { return (B[t] >= 0) & (B[t] < M); }));
  ((S *)&Configuration::kDefaultString)->n = T_DEF;
}
// line r: skipped, or an entry of a key and a value, or neither
static long content(long r) { return gTrim[T_LINE + r]; }
static bool skipped(long r) { long t = content(r); return (t == T_EMPTY) | (gFront[t] == '#'); }
static long key_of(long r) { return gLow[gTrim[gA[content(r)]]]; }
static long value_of(long r) { return gTrim[gB[content(r)]]; }
static bool entry(long r) { return (gF[content(r)] == 2) & (value_of(r) != T_EMPTY); }
static bool good(long r) { return skipped(r) | entry(r); }
extern "C" void H_confread() {
  Configuration *c = gC = vf_array<Configuration>(1); S name; name.n = 7;
  texts();
  gOpen = vf_any<bool>(); gNoEol = vf_any<bool>(); gL = vf_any<int>(); vf_assume((0 <= gL) & (gL < 2000000000)); gRead = 0; gErrAt = vf_any<long>();
  bool *H = gHas; S *V = gVal; long L = gL;
  vf_assume(vf_forall(0, N, [=](long i) -> bool { return !H[i]; }));
  long q = vf_any<int>(), R = vf_any<int>(); vf_assume((0 <= q) & (0 <= R) & ((R < L) | (R == 0)));
  // the last line that sets key q, or -1
  long l = vf_any<int>(); vf_assume((-1 <= l) & (l < L));
  vf_assume((l < 0) | (!skipped(l < 0 ? 0 : l) & (key_of(l < 0 ? 0 : l) == q)));
  vf_assume(vf_forall(l + 1, L, [=](long r) -> bool { return skipped(r) | (key_of(r) != q); }));
  long vl = value_of(l < 0 ? 0 : l);
  bool all = vf_forall(0, L, [=](long r) -> bool { return good(r); }), goodR = good(R), goodl = entry(l < 0 ? 0 : l);
  vf_inv("lines read", [=](long k) -> bool { return (gRead == k) & (k <= L) & ((gErrAt < 0) | (gErrAt >= k)); });
  vf_inv("line R", [=](long k) -> bool { return (k <= R) | goodR; });
  vf_inv("entry of key q", [=](long k) -> bool { return (l < 0) | (k <= l) ? !((l < 0) & H[q]) : H[q] & (V[q].n == vl) & goodl; });
  vf_cover("pre");
  Status st = c->Read(*(std::string *)&name);
  vf_inv_clear();
  bool noerr = (gErrAt < 0) | (gErrAt > L);
  vf_assert(st.code_ == 0 || !(gOpen & noerr & all), "accepted when every line is empty, a comment or key=value");
  vf_assert(st.code_ != 0 || (gOpen & (goodR | (L <= R)) & ((gErrAt < 0) | (gErrAt >= L))), "accepted only then, whatever line is looked at");
  if (st.code_ == 0) {
    vf_cover("accepted");
    vf_assert(gRead == L, "all lines are read");
    vf_assert(H[q] == (l >= 0) && (l < 0 || (V[q].n == vl && vl != T_EMPTY)), "a key has the value of its last line, which is not empty");
    vf_assert(((S *)&c->filename_)->n == 7, "the name of the file is kept");
  }
}
// ---- look-up
static long gKey; static S gName;
extern "C" long SC_rfind(S *s, char ch, unsigned long pos) { vf_assert(s->n == gName.n && ch == '/' && pos == -1UL, "the last / of the file name"); return gSlash[s->n]; }
static char *gNameText;
extern "C" char *SC_cbegin(S *s) { vf_assert(s->n == gName.n, "the file name"); return gNameText; }
extern "C" void SC_range(S *out, char *b, char *e) { vf_assert(b == gNameText && e == gNameText + (gSlash[gName.n] + 1), "the directory of the file"); out->n = T_DIR; }
extern "C" void SC_concat(S *out, S *a, S *b) { vf_assert(a->n == T_DIR, "below the directory"); out->n = gCat[b->n]; }
extern "C" int SC_stoi(S *s, void *pos, int base) {
  vf_assert(base == 10, "a decimal number");
  if (!gIsInt[s->n]) { vf_throw_(vf_any<bool>() ? 1 : 0); return 0; }
  return gInt[s->n];
}
#define LOOKUP \
  Configuration *c = gC = vf_array<Configuration>(1); texts(); \
  S key; key.n = gKey = vf_any<int>(); vf_assume(0 <= gKey); long low = gLow[gKey]; bool has = gHas[low]; long val = gVal[low].n; \
  vf_assume(!has | ((val > 4) & (val < 4000000000L)));        /* not empty (H_confread), and not the internal marker */ \
  gNameText = vf_array<char>(4000000000L); ((S *)&c->filename_)->n = gName.n = 7; vf_assume((gSlash[7] >= -1) & (gSlash[7] < 2000000000)); \
  vf_assume(gCat[has ? val : 0] > 4); \
  S def; def.n = vf_any<int>(); vf_assume(def.n > 4); S out; out.n = 5; \
  vf_cover("pre");
#define KEY (*(std::string *)&key)
#define DEFAULT (*(std::string *)&def)
extern "C" void H_string() {
  LOOKUP
  { std::string r = c->GetStringOrElse(KEY, DEFAULT); vf_assert(((S *)&r)->n == (has ? val : def.n), "the value, or the default"); }
  Status st = c->GetString(KEY, (std::string *)&out);
  vf_assert((st.code_ == 0) == has && out.n == (has ? val : 5), "the value, or an error that leaves the variable alone");
}
extern "C" void H_path() {
  LOOKUP
  long want = gFront[has ? val : 0] == '/' ? val : gSlash[7] < 0 ? val : gCat[has ? val : 0];
  { std::string r = c->GetPathOrElse(KEY, DEFAULT); vf_assert(((S *)&r)->n == (has ? want : def.n), "an absolute path, a path below the directory of the file, or the default"); }
  Status st = c->GetPath(KEY, (std::string *)&out);
  vf_assert((st.code_ == 0) == has && out.n == (has ? want : 5), "the path, or an error that leaves the variable alone");
}
extern "C" void H_integer() {
  LOOKUP
  bool num = gIsInt[has ? val : 0]; int v = gInt[has ? val : 0];
  int iv = 77;
  Status st = c->GetInteger(KEY, &iv);
  vf_assert((st.code_ == 0) == (has & num) && iv == (has & num ? v : 77), "the number, or an error that leaves the variable alone");
  int d = vf_any<int>();
  if (!has | num) vf_assert(c->GetIntegerOrElse(KEY, d) == (has ? v : d), "the number, or the default");
}
