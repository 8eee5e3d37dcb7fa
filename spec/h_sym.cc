// vf-noinline: std::vector<std::(__cxx11::)?(basic_string<.*>|string)
// SymbolTable: Read, Get and GetId for every sequence of lines.
// A text is known by a number (gLine: the fields of line r); lines, splitting and number parsing by the contracts proved in h_str.cc,
// the map and the list of words by the contracts of their containers.
#include "vfstd.h"
#include "symbol_table.h"
#include "symbol_table.cc"
using namespace pocketkaldi;
struct S { void *p; long n; long r[2]; };                 // n: the text
enum { T_EMPTY = 0, T_SPACE = 1, T_BOS = 2, T_EOS = 3 };
static bool same(const char *a, const char *b) { for (int i = 0; ; ++i) { if (a[i] != b[i]) return false; if (a[i] == 0) return true; } }
extern "C" void SC_lit(S *s, const char *p) { s->n = same(p, " ") ? T_SPACE : same(p, "<s>") ? T_BOS : same(p, "</s>") ? T_EOS : -1; }
extern "C" void SC_empty0(S *s) { s->n = T_EMPTY; }
extern "C" void SC_copy(S *d, S *s) { d->n = s->n; }
extern "C" S *SC_asg(S *d, S *s) { d->n = s->n; return d; }
extern "C" void SC_nop(void *) {}
extern "C" const char *SC_cstr(S *s) { return (const char *)s; }
extern "C" void SC_status(Status *s, int code, void *msg) { s->code_ = code; }
static void st_set(Status *s, int code) { s->code_ = code; }
// the file
static bool gOpen, gNoEol; static long gL, gRead, gErrAt;
static long *gF, *gW, *gNum; static bool *gNumOk;       // of line r: number of fields, the word, the number of the second field and whether it is one
static void *gFile, *gLine, *gFields; static S gField[2];
extern "C" void SC_open(Status *out, void *fd, S *name) { gFile = fd; st_set(out, gOpen ? 0 : 1); }
extern "C" bool SC_eof(void *fd) { vf_assert(fd == gFile, "the file"); return (gRead >= gL) & gNoEol & (gL > 0); }
extern "C" bool SC_readline(void *fd, S *line, Status *st) {
  vf_assert(fd == gFile, "the file");
  if (gRead == gErrAt) { st_set(st, 1); return false; }
  if (gRead >= gL) return false;
  gLine = line; line->n = 100 + gRead; ++gRead; return true;
}
extern "C" void SC_split(void *out, S *line, S *delim) {
  vf_assert(line->n == 100 + gRead - 1 && delim->n == T_SPACE, "the line read last, at spaces");
  gFields = out; gField[0].n = gW[gRead - 1]; gField[1].n = -2;
}
extern "C" void SC_tolong(Status *out, S *s, long *v) {
  vf_assert(s == &gField[1] && s->n == -2, "the second field");
  long r = gRead - 1;
  if (gNumOk[r]) { *v = gNum[r]; st_set(out, 0); } else st_set(out, 2);
}
// the containers
static SymbolTable *gT; static S *gWords; static long gWordsN; static int *gMapV; static bool *gMapHas;
extern "C" unsigned long SC_vsize(void *v) {
  if (v == (void *)&gT->words_) return gWordsN;
  vf_assert(v == gFields, "the fields"); return gF[gRead - 1];
}
extern "C" S *SC_vat(void *v, unsigned long i) {
  if (v == (void *)&gT->words_) { vf_assert((long)i >= 0 && (long)i < gWordsN, "inside the list of words"); return &gWords[i]; }
  vf_assert(v == gFields && (long)i < gF[gRead - 1] && i < 2, "inside the fields"); return &gField[i];
}
extern "C" void SC_vresize(void *v, unsigned long n) { vf_assert(v == (void *)&gT->words_ && (long)n >= gWordsN, "the list grows by empty words"); gWordsN = n; }
extern "C" int *SC_mat(void *m, S *k) {
  vf_assert(m == (void *)&gT->word_ids_ && k->n >= 0, "the map of words");
  long t = k->n; gMapV[t] = gMapHas[t] ? gMapV[t] : 0; gMapHas[t] = true; return &gMapV[t];
}
struct Pr { S first; int second; }; static Pr gPair; static char gNode[2];
extern "C" void *SC_mfind(void *m, S *k) {
  vf_assert(m == (void *)&gT->word_ids_ && k->n >= 0, "the map of words");
  gPair.second = gMapV[k->n];
  return gNode + (gMapHas[k->n] ? 1 : 0);
}
extern "C" void *SC_mend(void *m) { return gNode; }
extern "C" Pr *SC_mpair(void **it) { vf_assert(*it == gNode + 1, "an entry"); return &gPair; }
static bool good(long r) { return (gF[r] == 2) & gNumOk[r] & (0 <= gNum[r]) & (gNum[r] <= 2147483647L); }
static long last(long *A, long x) {     // the last line whose entry of A is x, or -1
  long l = vf_any<int>(), n = gL; vf_assume((-1 <= l) & (l < n));
  vf_assume((l < 0) | (A[l < 0 ? 0 : l] == x));
  vf_assume(vf_forall(l + 1, n, [=](long r) -> bool { return A[r] != x; }));
  return l;
}
extern "C" void H_symread() {
  SymbolTable *t = gT = vf_array<SymbolTable>(1); S name; name.n = -1;
  gOpen = vf_any<bool>(); gNoEol = vf_any<bool>(); gL = vf_any<int>(); vf_assume((0 <= gL) & (gL < 2000000000)); gRead = 0; gErrAt = vf_any<long>();
  const long N = 4000000000L;
  gF = vf_array<long>(N); gW = vf_array<long>(N); gNum = vf_array<long>(N); gNumOk = vf_array<bool>(N); gMapV = vf_array<int>(N); gMapHas = vf_array<bool>(N); gWords = vf_array<S>(N);
  vf_touch_(gF, 'l'); vf_touch_(gW, 'l'); vf_touch_(gNum, 'l'); vf_touch_(gNumOk, 'b'); vf_touch_(gMapV, 'i'); vf_touch_(gMapHas, 'b'); vf_touch_(&gWords[0].n, 'l');
  long *W = gW, *X = gNum; bool *H = gMapHas; S *D = gWords; int *V = gMapV; long L = gL;
  vf_assume(vf_forall(0, L, [=](long r) -> bool { return (W[r] >= 0) & (W[r] < 2000000000L); }));
  vf_assume(vf_forall(0, N, [=](long i) -> bool { return !H[i]; }));
  vf_assume(vf_forall(0, N, [=](long i) -> bool { return D[i].n == T_EMPTY; }));
  gWordsN = 0;
  long w = vf_any<int>(), x = vf_any<int>(), R = vf_any<int>(); vf_assume((0 <= w) & (0 <= x) & (0 <= R) & ((R < L) | (R == 0)) & (w < 2000000000L));
  long lw = last(gW, w), lb = last(gW, T_BOS), le = last(gW, T_EOS), lx = last(gNum, x);
  bool all = vf_forall(0, L, [=](long r) -> bool { return good(r); }), goodR = good(R);
  vf_inv("lines read", [=](long k) -> bool { return (gRead == k) & (k <= L) & (gWordsN >= 0) & ((gErrAt < 0) | (gErrAt >= k)); });
  vf_inv("line R", [=](long k) -> bool { return (k <= R) | goodR; });
  vf_inv("entry of word w", [=](long k) -> bool { return (lw < 0) | (k <= lw) ? !((lw < 0) & H[w]) : H[w] & (V[w] == (int)X[lw]); });
  vf_inv("entry of the begin", [=](long k) -> bool { return (lb < 0) | (k <= lb) ? !((lb < 0) & H[T_BOS]) : H[T_BOS] & (V[T_BOS] == (int)X[lb]); });
  vf_inv("entry of the end", [=](long k) -> bool { return (le < 0) | (k <= le) ? !((le < 0) & H[T_EOS]) : H[T_EOS] & (V[T_EOS] == (int)X[le]); });
  vf_inv("word of number x", [=](long k) -> bool { return (lx < 0) | (k <= lx) ? (lx >= 0) | (D[x].n == T_EMPTY) : (x < gWordsN) & (D[x].n == W[lx]); });
  vf_cover("pre");
  Status st = t->Read(*(std::string *)&name);
  vf_inv_clear();
  bool noerr = (gErrAt < 0) | (gErrAt > L);
  vf_assert(st.code_ == 0 || !(gOpen & noerr & all & (lb >= 0) & (le >= 0)), "accepted when every line is a word and a number and the boundary words are there");
  vf_assert(st.code_ != 0 || (gOpen & (goodR | (L <= R)) & (lb >= 0) & (le >= 0) & ((gErrAt < 0) | (gErrAt >= L))), "accepted only then, whatever line is looked at");
  if (st.code_ == 0) {
    vf_cover("accepted");
    vf_assert(gRead == L, "all lines are read");
    vf_assert(H[w] == (lw >= 0) && (lw < 0 || V[w] == (int)X[lw]), "a word is in the table exactly when listed, with its number");
    vf_assert(lx >= 0 ? x < gWordsN && D[x].n == W[lx] : D[x].n == T_EMPTY, "the word of a number");
    vf_assert(t->bos_id_ == (int)X[lb] && t->eos_id_ == (int)X[le], "the boundary words");
  }
}
extern "C" void H_symget() {
  SymbolTable *t = gT = vf_array<SymbolTable>(1); const long N = 4000000000L;
  gMapV = vf_array<int>(N); gMapHas = vf_array<bool>(N); gWords = vf_array<S>(N); gWordsN = vf_any<int>(); vf_assume(gWordsN >= 0);
  vf_touch_(gMapV, 'i'); vf_touch_(gMapHas, 'b'); vf_touch_(&gWords[0].n, 'l');
  S key; key.n = vf_any<int>(); vf_assume(key.n >= 0); int i = vf_any<int>(); vf_assume((0 <= i) & (i < gWordsN));
  vf_cover("pre");
  vf_assert(t->GetId(*(std::string *)&key) == (gMapHas[key.n] ? gMapV[key.n] : -1), "the number of a listed word, not-found otherwise");
  vf_assert(t->Get(i) == (const char *)&gWords[i], "the word of the number");
  vf_assert(t->bos_id() == t->bos_id_ && t->eos_id() == t->eos_id_, "the boundary words");
}
